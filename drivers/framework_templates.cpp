// Instantiates header-only templates of the framework so that the analysis can read their resolved bodies.
// Nothing here is ever linked or run.
#include <knp/framework/io/in_converters/sequence_converter.h>
#include <knp/framework/io/out_converters/convert_bitwise.h>
#include <knp/framework/io/out_converters/convert_count.h>
#include <knp/framework/io/out_converters/convert_set.h>
#include <knp/framework/io/output_channel.h>
#include <knp/framework/network.h>
#include <knp/framework/normalization/neuron_accessors.h>
#include <knp/framework/normalization/neuron_normalizer.h>
#include <knp/framework/normalization/normalizers.h>
#include <knp/framework/normalization/synapse_accessors.h>
#include <knp/framework/normalization/synapse_normalizer.h>

namespace drv
{
namespace fw = knp::framework;
namespace nm = knp::framework::normalization;

void channels(
    fw::io::input::SequenceConverter<float> &s, fw::io::output::OutputChannel &c,
    fw::io::output::OutputConverter<std::vector<bool>> cv, size_t a, size_t b)
{
    (void)s(a);
    (void)fw::io::output::output_channel_get<std::vector<bool>>(c, cv, a, b);
}

void normalizers(fw::Network &n, const fw::Network &cn, nm::ValueCorrector<float> f)
{
    nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor>(n, f);
    (void)nm::normalize_synapses<nm::WeightAccessor, nm::WeightAccessor>(cn, f);
    nm::Rescaler<float> r(0, 1, 0, 2);
    (void)r(0.5F);
}

void neurons(knp::core::Population<knp::neuron_traits::BLIFATNeuron> &p, nm::ValueCorrector<double> f)
{
    using N = knp::neuron_traits::BLIFATNeuron;
    nm::normalize_neurons<N, nm::PotentialAccessor, nm::PotentialAccessor>(
        p, nm::PotentialAccessor<N>(), nm::PotentialAccessor<N>(), f);
}

void networks(fw::Network &n, const fw::Network &cn, nm::ValueCorrector<double> f)
{
    nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor>(n, f);
    (void)nm::normalize_neurons<nm::PotentialAccessor, nm::PotentialAccessor>(cn, f);
}
}  // namespace drv
