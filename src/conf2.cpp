// second translation unit including the same headers
#include <BSpline.hpp>
#include <BandLU.hpp>
#include <Interpolation.hpp>
#include <InterpolationTemplate.hpp>
#include <Mesh.hpp>
double other_unit(int n, double x) {
    std::vector<double> v;
    for (int i = 0; i < n + 3; ++i) v.push_back(i * i);
    intp::InterpolationFunction1D<3> f(std::make_pair(v.begin(), v.end()));
    intp::InterpolationFunction<double, 2, 3> g;
    intp::Mesh<double, 2> m{4, 5};
    return f(x) + double(m.size());
}
