# Reference equations (parsed by the checker, never executed).
from libecalc.common.component_type import ComponentType
from libecalc.domain.energy import Emitter
from libecalc.presentation.flow_diagram.flow_diagram_dtos import Edge, Flow, FlowDiagram, FlowType, Node, NodeType
from typing import assert_never


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram", props=["C27"])
class K0_constants:
    FUEL_NODE = Node(id='fuel-input', title='Fuel', type=NodeType.INPUT_OUTPUT_NODE)
    EMISSION_NODE = Node(id='emission-output', title='Emission', type=NodeType.INPUT_OUTPUT_NODE)
    FUEL_FLOW = Flow(id='fuel-flow', label='Fuel', type=FlowType.FUEL)
    EMISSIONS_FLOW = Flow(id='emission-flow', label='Emissions', type=FlowType.EMISSION)
    ELECTRICITY_FLOW = Flow(id='electricity-flow', label='Electricity', type=FlowType.ELECTRICITY)


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram.__init__", props=["C27"])
def EnergyModelFlowDiagram_init(self, energy_model, model_period):
    self._energy_model = energy_model
    self._model_period = model_period


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._get_node_type", props=["C27"])
def EnergyModelFlowDiagram_get_node_type(component_type):
    match component_type:
        case ComponentType.INSTALLATION:
            return NodeType.INSTALLATION
        case ComponentType.PUMP:
            return NodeType.PUMP
        case ComponentType.COMPRESSOR:
            return NodeType.COMPRESSOR
        case ComponentType.COMPRESSOR_SYSTEM:
            return NodeType.COMPRESSOR_SYSTEM
        case ComponentType.PUMP_SYSTEM:
            return NodeType.PUMP_SYSTEM
        case ComponentType.GENERATOR_SET:
            return NodeType.GENERATOR
        case ComponentType.GENERIC:
            return NodeType.DIRECT
        case ComponentType.VENTING_EMITTER:
            return NodeType.DIRECT
        case _:
            assert_never(component_type)


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._is_fuel_consumer", props=["C27"])
def EnergyModelFlowDiagram_is_fuel_consumer(self, container_id):
    energy_container = self._energy_model.get_energy_container(container_id)
    return energy_container.is_fuel_consumer()


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._is_power_provider", props=["C27"])
def EnergyModelFlowDiagram_is_power_provider(self, container_id):
    energy_container = self._energy_model.get_energy_container(container_id)
    return energy_container.is_provider()


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._is_emitter", props=["C27"])
def EnergyModelFlowDiagram_is_emitter(self, container_id):
    energy_container = self._energy_model.get_energy_container(container_id)
    return isinstance(energy_container, Emitter)


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._get_energy_component_fde", props=["C27"])
def EnergyModelFlowDiagram_get_energy_component_fde(self, node_id):
    consumers = self._energy_model.get_consumers(node_id)
    if not consumers:
        return None
    nodes = [FUEL_NODE, EMISSION_NODE]
    edges = []
    for consumer_id in consumers:
        nodes.append(self._get_node(consumer_id, include_subdiagram=not self._is_power_provider(consumer_id)))
        if self._is_fuel_consumer(consumer_id):
            edges.append(self._get_edge(from_node=FUEL_NODE.id, to_node=str(consumer_id), flow=FUEL_FLOW.id))
            edges.append(self._get_edge(from_node=str(consumer_id), to_node=EMISSION_NODE.id, flow=EMISSIONS_FLOW.id))
        elif self._is_emitter(consumer_id):
            edges.append(self._get_edge(from_node=str(consumer_id), to_node=EMISSION_NODE.id, flow=EMISSIONS_FLOW.id))
        if self._is_power_provider(consumer_id):
            el_consumers = self._energy_model.get_consumers(consumer_id)
            for el_consumer_id in el_consumers:
                nodes.append(self._get_node(el_consumer_id))
                edges.append(self._get_edge(from_node=str(consumer_id), to_node=str(el_consumer_id), flow=ELECTRICITY_FLOW.id))
    energy_container = self._energy_model.get_energy_container(node_id)
    return [FlowDiagram(id=str(node_id), title=energy_container.get_name(), start_date=self._model_period.start, end_date=self._model_period.end, nodes=nodes, edges=edges, flows=[FUEL_FLOW, EMISSIONS_FLOW, ELECTRICITY_FLOW])]


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._get_edge", props=["C27"])
def EnergyModelFlowDiagram_get_edge(self, from_node, to_node, flow):
    return Edge(from_node=from_node, to_node=to_node, flow=flow)


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram._get_node", props=["C27"])
def EnergyModelFlowDiagram_get_node(self, node_id, include_subdiagram=True):
    energy_container = self._energy_model.get_energy_container(node_id)
    return Node(id=str(node_id), title=energy_container.get_name(), type=self._get_node_type(energy_container.get_component_process_type()).value, subdiagram=self._get_energy_component_fde(node_id) if include_subdiagram else None)


@target("libecalc.presentation.flow_diagram.energy_model_flow_diagram.EnergyModelFlowDiagram.get_energy_flow_diagram", props=["C27"])
def EnergyModelFlowDiagram_get_energy_flow_diagram(self):
    energy_components = self._energy_model.get_energy_components()
    installations = [energy_component for energy_component in energy_components if self._energy_model.get_energy_container(energy_component).get_component_process_type() == ComponentType.INSTALLATION]
    installation_nodes = [self._get_node(installation) for installation in installations]
    edges = []
    for installation in installation_nodes:
        edges.append(Edge(from_node=FUEL_NODE.id, to_node=installation.id, flow=FUEL_FLOW.id))
        edges.append(Edge(from_node=installation.id, to_node=EMISSION_NODE.id, flow=EMISSIONS_FLOW.id))
    return FlowDiagram(id='area', title='Area', nodes=[FUEL_NODE, *installation_nodes, EMISSION_NODE], flows=[FUEL_FLOW, EMISSIONS_FLOW], edges=edges, start_date=self._model_period.start, end_date=self._model_period.end)


@target("libecalc.presentation.flow_diagram.flow_diagram_dtos.NodeType", props=["C27"])
class NodeTypeValues:
    GENERATOR = 'generator'
    INSTALLATION = 'installation'
    CABLE = 'cable'
    COMPRESSOR = 'compressor'
    COMPRESSOR_SYSTEM = 'compressor-system'
    DIRECT = 'direct'
    ENGINE = 'engine'
    ENGINE_GENERATOR_SET = 'engine-generator-set'
    INPUT_OUTPUT_NODE = 'input-output-node'
    PUMP = 'pump'
    PUMP_SYSTEM = 'pump-system'
    TABULATED = 'tabulated'
    TURBINE = 'turbine'
    TURBINE_GENERATOR_SET = 'turbine-generator-set'
    WIND_TURBINE = 'wind-turbine'
    WIND_TURBINE_SYSTEM = 'wind-turbine-system'


@target("libecalc.presentation.flow_diagram.flow_diagram_dtos.FlowType", props=["C27"])
class FlowTypeValues:
    FUEL = 'fuel-flow'
    EMISSION = 'emission-flow'
    ELECTRICITY = 'electricity-flow'


@target("libecalc.presentation.flow_diagram.flow_diagram_dtos.Node", props=["C27"])
class NodeValues:
    title = None
    type = None
    subdiagram = None
