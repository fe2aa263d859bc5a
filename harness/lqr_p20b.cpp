// A second translation unit including the header (it must be usable from more than one).
#include "control/lqr.hpp"
double second_unit() { Eigen::MatrixXd m(1, 1); m << 2; return pinv(m)(0, 0); }
