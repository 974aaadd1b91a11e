// Stand-in for the one FTK function that sz_compress_cp_preserve_3d.cpp calls (FTK is not available offline):
// barycentric coordinates of the zero of a linear vector field on a tetrahedron.
#pragma once
#include <limits>
#include <cmath>
namespace ftk {
template <class T>
inline bool inverse_lerp_s3v3(const T V[4][3], T mu[4], T* cond, const T threshold = std::numeric_limits<T>::epsilon()) {
  const double a[3][3] = {{(double)V[0][0] - V[3][0], (double)V[1][0] - V[3][0], (double)V[2][0] - V[3][0]},
                          {(double)V[0][1] - V[3][1], (double)V[1][1] - V[3][1], (double)V[2][1] - V[3][1]},
                          {(double)V[0][2] - V[3][2], (double)V[1][2] - V[3][2], (double)V[2][2] - V[3][2]}};
  const double b[3] = {-(double)V[3][0], -(double)V[3][1], -(double)V[3][2]};
  auto det = [](const double m[3][3]) {
    return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  };
  const double d = det(a);
  if (cond) *cond = 1;
  double s = 1;
  for (int k = 0; k < 3; k++) {
    double t[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t[i][j] = j == k ? b[i] : a[i][j];
    mu[k] = (T)(det(t) / d);
    s -= det(t) / d;
  }
  mu[3] = (T)s;
  for (int k = 0; k < 4; k++) if (!(mu[k] >= -threshold && mu[k] <= 1 + threshold)) return false;
  return true;
}
}  // namespace ftk
