// Instantiates the header-only population and projection creators so that the analysis can read their resolved bodies.
// Nothing here is ever linked or run.
#include <knp/core/population.h>
#include <knp/core/projection.h>
#include <knp/framework/population/creators.h>
#include <knp/framework/projection/connectors.h>
#include <knp/framework/projection/creators.h>
#include <knp/neuron-traits/all_traits.h>
#include <knp/synapse-traits/all_traits.h>

#include <map>
#include <vector>

namespace drv
{
using S = knp::synapse_traits::DeltaSynapse;
using R = knp::synapse_traits::SynapticResourceSTDPDeltaSynapse;
using N = knp::neuron_traits::BLIFATNeuron;
using M = knp::neuron_traits::AltAILIF;
using UID = knp::core::UID;
using Proj = knp::core::Projection<S>;
using Pop = knp::core::Population<N>;
namespace pc = knp::framework::projection::creators;
namespace gen = knp::framework::projection::synapse_generators;
namespace par = knp::framework::projection::parameters_generators;
namespace pop = knp::framework::population;

void projections(
    const UID &a, const UID &b, size_t p, size_t q, double d, const std::vector<Proj::Synapse> &v,
    const std::map<std::tuple<size_t, size_t>, Proj::SynapseParameters> &m, par::SynGenOptional2ParamsType<S> og,
    const knp::core::Projection<R> &other, const Pop &src, const knp::core::Population<M> &dst, Proj::SynapseGenerator g)
{
    (void)pc::all_to_all<S>(a, b, p, q);
    (void)pc::aligned<S>(a, b, p, q);
    (void)pc::exclusive<S>(a, b, p);
    (void)pc::one_to_one<S>(a, b, p);
    (void)pc::from_container<S, std::vector>(a, b, v);
    (void)pc::from_map<S, std::map>(a, b, m);
    (void)pc::fixed_probability<S>(a, b, p, q, d);
    (void)pc::index_based<S>(a, b, p, q, og);
    (void)pc::fixed_number_post<S>(a, b, p, q, p);
    (void)pc::fixed_number_pre<S>(a, b, p, q, p);
    (void)pc::clone_projection<S, R>(other);
    (void)knp::framework::projection::connect_populations<S, N, M>(src, dst);
    (void)knp::framework::projection::connect_populations<S, N, M>(src, dst, g, p);
    gen::FixedProbability<S> fp(p, q, d);
    (void)fp(p);
    gen::FixedNumberPost<S> fo(p, q);
    (void)fo(p);
    gen::FixedNumberPre<S> fr(p, q);
    (void)fr(p);
    gen::FromMap<S, std::map> fm(m);
    (void)fm(p);
    par::CopySynapseGen<S> cs(Proj::SynapseParameters{});
    (void)cs(p, q);
}

void populations(size_t n, const std::vector<Pop::NeuronParameters> &v, const Pop::NeuronParameters &one)
{
    (void)pop::creators::from_container<N, std::vector>(v);
    (void)pop::creators::make_default<N>(n);
    (void)pop::creators::make_clone<N>(n, one);
}
}  // namespace drv
