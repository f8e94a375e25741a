#include <boost/algorithm/string/trim.hpp>
