#pragma once
#include <boost/uuid/random_generator.hpp>
