#pragma once
#include "yaml_eigen.hpp"
