#include <sferes/ea/nsga2.hpp>
