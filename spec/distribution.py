# Reference equations (parsed by the checker, never executed).
import networkx as nx
from collections import defaultdict
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
from libecalc.process.stream_distribution.priorities_stream_distribution import find_first_valid


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution.__init__", props=["C21"])
def CommonStreamDistribution_init(self, inlet_stream, items, rate_fractions, overflows, fluid_service):
    self._items = items
    self._rates = [inlet_stream.standard_rate_sm3_per_day * rate_fraction for rate_fraction in rate_fractions]
    self._overflows = overflows
    self._inlet_stream = inlet_stream
    self._fluid_service = fluid_service
    self._overflow_graph = nx.DiGraph()
    for item_id in self._items.keys():
        self._overflow_graph.add_node(item_id)
    for overflow in self._overflows:
        self._overflow_graph.add_edge(overflow.from_id, overflow.to_id)
    if not nx.is_directed_acyclic_graph(self._overflow_graph):
        raise EcalcValidationException('Overflow can not be cyclic')


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution.get_number_of_streams", props=["C21"])
def CommonStreamDistribution_get_number_of_streams(self):
    return len(self._rates)


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution._get_sorted_items", props=["C21"])
def CommonStreamDistribution_get_sorted_items(self):
    return nx.topological_sort(self._overflow_graph)


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution._get_overflow_out", props=["C21"])
def CommonStreamDistribution_get_overflow_out(self, item_id):
    for overflow in self._overflows:
        if overflow.from_id == item_id:
            return overflow
    return None


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution._adjust_for_overflow", props=["C21"])
def CommonStreamDistribution_adjust_for_overflow(self):
    overflow_map = defaultdict(list)
    adjusted_rates = {}
    rates = dict(zip(self._items, self._rates, strict=True))
    for item_id in self._get_sorted_items():
        overflow = self._get_overflow_out(item_id)
        overflow_rate = sum(overflow_map[item_id])
        current_rate = rates[item_id] + overflow_rate
        if overflow is not None:
            item = self._items[item_id]
            stream = self._fluid_service.create_stream_from_standard_rate(fluid_model=self._inlet_stream.fluid_model, standard_rate_m3_per_day=current_rate, temperature_kelvin=self._inlet_stream.temperature_kelvin, pressure_bara=self._inlet_stream.pressure_bara)
            excess_rate = item.get_excess_rate(stream)
            handled_rate = current_rate - excess_rate
            overflow_map[overflow.to_id].append(excess_rate)
            adjusted_rates[item_id] = handled_rate
        else:
            adjusted_rates[item_id] = current_rate
    return adjusted_rates


@target("libecalc.process.stream_distribution.common_stream_distribution.CommonStreamDistribution.get_streams", props=["C21"])
def CommonStreamDistribution_get_streams(self):
    rates = self._adjust_for_overflow()
    streams = {item_id: self._fluid_service.create_stream_from_standard_rate(fluid_model=self._inlet_stream.fluid_model, standard_rate_m3_per_day=rate, temperature_kelvin=self._inlet_stream.temperature_kelvin, pressure_bara=self._inlet_stream.pressure_bara) for item_id, rate in rates.items()}
    return [streams[item_id] for item_id in self._items]


@target("libecalc.process.stream_distribution.individual_stream_distribution.IndividualStreamDistribution.__init__", props=["C21"])
def IndividualStreamDistribution_init(self, streams):
    self._streams = streams


@target("libecalc.process.stream_distribution.individual_stream_distribution.IndividualStreamDistribution.get_number_of_streams", props=["C21"])
def IndividualStreamDistribution_get_number_of_streams(self):
    return len(self._streams)


@target("libecalc.process.stream_distribution.individual_stream_distribution.IndividualStreamDistribution.get_streams", props=["C21"])
def IndividualStreamDistribution_get_streams(self):
    return list(self._streams)


@target("libecalc.process.stream_distribution.priorities_stream_distribution.find_first_valid", props=["C21"])
def f_find_first_valid(stream_distributions, items):
    for stream_distribution in stream_distributions:
        streams = stream_distribution.get_streams()
        if all((item.is_valid(stream) for item, stream in zip(items, stream_distribution.get_streams(), strict=True))):
            return streams
    return streams


@target("libecalc.process.stream_distribution.priorities_stream_distribution.PrioritiesStreamDistribution.__init__", props=["C21"])
def PrioritiesStreamDistribution_init(self, stream_distributions, items):
    self._stream_distributions = stream_distributions
    self._items = items


@target("libecalc.process.stream_distribution.priorities_stream_distribution.PrioritiesStreamDistribution.get_number_of_streams", props=["C21"])
def PrioritiesStreamDistribution_get_number_of_streams(self):
    return len(self._items)


@target("libecalc.process.stream_distribution.priorities_stream_distribution.PrioritiesStreamDistribution.get_streams", props=["C21"])
def PrioritiesStreamDistribution_get_streams(self):
    return find_first_valid(self._stream_distributions, self._items)
