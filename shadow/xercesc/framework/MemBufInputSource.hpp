#pragma once
#include "../xerces_model.h"
