#pragma once
#include "irv_restinio.hpp"
