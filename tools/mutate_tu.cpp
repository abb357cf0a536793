#include <Eigen/Core>
#include <hyperjet/hyperjet.h>
