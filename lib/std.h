#include <cassert>
#include <cmath>
#include <complex>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <list>
#include <vector>
#include <limits>
