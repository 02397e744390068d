#include <string>
#include <vector>
#include <sstream>
#include <map>
#include <memory>
#include <cmath>
#include <iostream>
#include <utility>
#include <algorithm>
#include <complex>
#include <set>
#include <iomanip>
#include <array>
#include <list>
#include <limits>
#include <fstream>
#include <functional>
#include <numeric>
#include <future>
#include <boost/multiprecision/float128.hpp>
