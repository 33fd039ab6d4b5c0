#include <boost/phoenix/operator.hpp>
