// numbers of text files: "@name" is the unknown of that name, anything else the number it spells
#ifndef VERIF_STOD_H
#define VERIF_STOD_H
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <map>
#include <regex>
#include <algorithm>
#include <functional>
#ifdef VERIF_SYM
#include "symd.h"
namespace std { vsym::D verif_stod(const std::string&); }
#else
namespace std { double verif_stod(const std::string&); }
#endif
#define stod verif_stod
#endif
