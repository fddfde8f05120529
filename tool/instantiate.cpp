// Forces the templates of the library to be instantiated so that their bodies
// appear in the type-checked program.  Only analysed, never linked or run.
#include "include/carmcmc.hpp"
#include "include/kfilter.hpp"
#include "include/samplers.hpp"
#include "include/steps.hpp"
#include "include/proposals.hpp"
#include "include/parameters.hpp"
#include "include/carpack.hpp"

template class KalmanFilter<double>;
template class KalmanFilter<arma::cx_vec>;
template class Parameter<arma::vec>;
template class Parameter<double>;
template class CARMA_Base<double>;
template class CARMA_Base<arma::cx_vec>;
template class Ensemble<CARp>;
template class MetropStep<arma::vec>;
template class MetropStep<double>;
template class ExchangeStep<arma::vec, CARp>;
template class StretchProposal<CARp>;
void force_instantiation(Parameter<double>& p, Parameter<arma::vec>& q) {
    GibbsStep<double> g(p);
    g.DoStep();
    GibbsStep<arma::vec> h(q);
    h.DoStep();
}
