#include "IpTNLP.hpp"
