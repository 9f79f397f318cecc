#ifndef VP_SHIM_STATS_HPP
#define VP_SHIM_STATS_HPP
#include <Eigen/Core>
namespace numeric {
// incremental weighted mean and (biased by weights) covariance
template<class V> class Stats {
    enum { D = V::RowsAtCompileTime }; typedef Eigen::Matrix<double,D,1> Vec; typedef Eigen::Matrix<double,D,D> Mat;
    Vec m; Mat M2; double w, w2; size_t cnt;
public:
    Stats() : m(Vec::Zero()), M2(Mat::Zero()), w(0), w2(0), cnt(0) {}
    void update(const V& v, double weight = 1.0) { double nw = w + weight; Vec d = Vec(v) - m; Vec R = d*weight/nw; M2 += w*d*R.transpose(); m += R; w = nw; w2 += weight*weight; cnt++; }
    Vec mean() const { return m; } Mat var() const { return M2/w; } double sumWeights() const { return w; } size_t n() const { return cnt; }
};
}
#endif
