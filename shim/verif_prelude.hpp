// Headers that the project expects its dependencies to have included (its headers are fragments
// that are included inside namespaces, so every standard header has to come first).
#include <bits/stdc++.h>
#include <unistd.h>
#include "Log.hpp"
#include <range/v3/view/drop_exactly.hpp>
#include <range/v3/algorithm/max.hpp>
#include <range/v3/algorithm/max_element.hpp>
