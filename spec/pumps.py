# Reference equations (parsed by the checker, never executed).
import dataclasses
import numpy as np
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
from libecalc.common.units import Unit, UnitConstants
from libecalc.common.utils.ecalc_uuid import ecalc_id_generator
from libecalc.domain.process.core.results import PumpModelResult
from libecalc.domain.process.pump.pump import _adjust_for_head_margin
from libecalc.domain.process.value_objects.chart import Chart
from libecalc.process.process_pipeline.process_pipeline import ProcessUnitConnection
from libecalc.process.process_pipeline.process_unit import ProcessUnitId
from libecalc.process.pump.exceptions import NegativeMassRateException, NonPositiveDensityException, NonPositivePressureException
from libecalc.process.pump.pump import Pump, PumpEvaluationResult
from libecalc.process.pump.pump_process_simulation import LiquidProcessUnit, LiquidProcessUnitType, LiquidRecirculationLoop, PumpOperatingResult, PumpProcessSimulation
from types import MappingProxyType
EPSILON = 1e-15


@target("libecalc.process.pump.exceptions.InvalidLiquidStreamException.__init__", props=["C22"])
def InvalidLiquidStreamException_init(self, title=None, reason=None):
    super().__init__(title=f'Invalid liquid stream: {title or ''}', message=reason or '')


@target("libecalc.process.pump.exceptions.NonPositiveDensityException.__init__", props=["C22"])
def NonPositiveDensityException_init(self, density_kg_per_m3):
    self.density_kg_per_m3 = density_kg_per_m3
    super().__init__(reason='Liquid density must be positive.')


@target("libecalc.process.pump.exceptions.NegativeMassRateException.__init__", props=["C22"])
def NegativeMassRateException_init(self, mass_rate_kg_per_h):
    self.mass_rate_kg_per_h = mass_rate_kg_per_h
    super().__init__(reason='Mass rate cannot be negative.')


@target("libecalc.process.pump.exceptions.NonPositivePressureException.__init__", props=["C22"])
def NonPositivePressureException_init(self, pressure_bara):
    self.pressure_bara = pressure_bara
    super().__init__(reason='Pressure must be positive.')


@target("libecalc.process.pump.liquid_stream.LiquidStream.__post_init__", props=["C22"])
def LiquidStream_post_init(self):
    if self.density_kg_per_m3 <= 0:
        raise NonPositiveDensityException(self.density_kg_per_m3)
    if self.mass_rate_kg_per_h < 0:
        raise NegativeMassRateException(self.mass_rate_kg_per_h)
    if self.pressure_bara <= 0:
        raise NonPositivePressureException(self.pressure_bara)


@target("libecalc.process.pump.liquid_stream.LiquidStream.volumetric_rate_m3_per_hour", props=["C22"])
def LiquidStream_volumetric_rate_m3_per_hour(self):
    return self.mass_rate_kg_per_h / self.density_kg_per_m3


@target("libecalc.process.pump.liquid_stream.LiquidStream.volumetric_rate_m3_per_day", props=["C22"])
def LiquidStream_volumetric_rate_m3_per_day(self):
    return self.volumetric_rate_m3_per_hour * UnitConstants.HOURS_PER_DAY


@target("libecalc.process.pump.liquid_stream.LiquidStream.with_mass_rate", props=["C22"])
def LiquidStream_with_mass_rate(self, mass_rate_kg_per_h):
    return dataclasses.replace(self, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("libecalc.process.pump.liquid_stream.LiquidStream.with_pressure", props=["C22"])
def LiquidStream_with_pressure(self, pressure_bara):
    return dataclasses.replace(self, pressure_bara=pressure_bara)


@target("libecalc.process.pump.liquid_stream.LiquidStream.from_volumetric_rate", props=["C22"])
def LiquidStream_from_volumetric_rate(cls, volumetric_rate_m3_per_day, pressure_bara, density_kg_per_m3):
    mass_rate_kg_per_h = volumetric_rate_m3_per_day * density_kg_per_m3 / UnitConstants.HOURS_PER_DAY
    return cls(pressure_bara=pressure_bara, density_kg_per_m3=density_kg_per_m3, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("libecalc.process.pump.pump.PumpFailureStatus", props=["C22"])
class PumpFailureStatusValues:
    NO_FAILURE = 'NO_FAILURE'
    ABOVE_MAXIMUM_PUMP_RATE = 'ABOVE_MAXIMUM_PUMP_RATE'
    ABOVE_MAXIMUM_HEAD_AT_RATE = 'ABOVE_MAXIMUM_HEAD_AT_RATE'
    ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE = 'ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE'


@target("libecalc.process.pump.pump.PumpEvaluationResult.is_valid", props=["C22"])
def PumpEvaluationResult_is_valid(self):
    return self.failure_status == PumpFailureStatus.NO_FAILURE


@target("libecalc.process.pump.pump.PumpEvaluationResult.choke_pressure_drop_bara", props=["C22"])
def PumpEvaluationResult_choke_pressure_drop_bara(self):
    return max(0.0, self.operational_discharge_pressure_bara - self.required_discharge_pressure_bara)


@target("libecalc.process.pump.pump.Pump.__init__", props=["C22"])
def Pump_init(self, pump_chart, minimum_flow_rate_m3_per_hour=None, process_unit_id=None):
    self._id = process_unit_id or Pump._create_id()
    self._pump_chart = Chart(pump_chart)
    self._validate_pump_chart_efficiency()
    if minimum_flow_rate_m3_per_hour is None:
        minimum_flow_rate_m3_per_hour = self._pump_chart.minimum_rate
    if minimum_flow_rate_m3_per_hour < self._pump_chart.minimum_rate:
        raise EcalcValidationException(f"Minimum flow rate ({minimum_flow_rate_m3_per_hour} m3/h) cannot be below the chart's minimum rate ({self._pump_chart.minimum_rate} m3/h); the operating point would fall outside the pump chart.")
    self._minimum_flow_rate_m3_per_hour = minimum_flow_rate_m3_per_hour
    self._discharge_pressure_bara = None


@target("libecalc.process.pump.pump.Pump.get_id", props=["C22"])
def Pump_get_id(self):
    return self._id


@target("libecalc.process.pump.pump.Pump._create_id", props=["C22"])
def Pump_create_id(cls):
    return ProcessUnitId(ecalc_id_generator())


@target("libecalc.process.pump.pump.Pump.pump_chart", props=["C22"])
def Pump_pump_chart(self):
    return self._pump_chart


@target("libecalc.process.pump.pump.Pump.minimum_flow_rate_m3_per_hour", props=["C22"])
def Pump_minimum_flow_rate_m3_per_hour(self):
    return self._minimum_flow_rate_m3_per_hour


@target("libecalc.process.pump.pump.Pump.set_discharge_pressure", props=["C22"])
def Pump_set_discharge_pressure(self, discharge_pressure_bara):
    self._validate_discharge_pressure(discharge_pressure_bara)
    self._discharge_pressure_bara = discharge_pressure_bara


@target("libecalc.process.pump.pump.Pump.propagate_stream", props=["C22"])
def Pump_propagate_stream(self, inlet_stream):
    if self._discharge_pressure_bara is None:
        raise ValueError()
    result = self.evaluate(inlet_stream, self._discharge_pressure_bara)
    return inlet_stream.with_pressure(result.operational_discharge_pressure_bara)


@target("libecalc.process.pump.pump.Pump.evaluate", props=["C22"])
def Pump_evaluate(self, inlet_stream, discharge_pressure_bara):
    self._validate_discharge_pressure(discharge_pressure_bara)
    density = inlet_stream.density_kg_per_m3
    rate_m3_per_hour = inlet_stream.volumetric_rate_m3_per_hour
    required_head = self._calculate_head(suction_pressure=inlet_stream.pressure_bara, discharge_pressure=discharge_pressure_bara, density=density)
    if rate_m3_per_hour <= 0:
        return PumpEvaluationResult(inlet_stream=inlet_stream, shaft_power_mw=0.0, efficiency=None, specific_shaft_work_joule_per_kg=None, required_head_joule_per_kg=required_head, operational_head_joule_per_kg=0.0, operational_volumetric_rate_m3_per_hour=0.0, recirculation_rate_m3_per_hour=0.0, required_discharge_pressure_bara=discharge_pressure_bara, operational_discharge_pressure_bara=inlet_stream.pressure_bara, speed_rpm=None, failure_status=PumpFailureStatus.NO_FAILURE, process_unit_id=self._id)
    chart_minimum_flow_at_head = float(self._pump_chart.minimum_rate_as_function_of_head(required_head))
    operating_rate_m3_per_hour = max(rate_m3_per_hour, self._minimum_flow_rate_m3_per_hour, chart_minimum_flow_at_head)
    minimum_head_at_rate = float(self._pump_chart.minimum_head_as_function_of_rate(operating_rate_m3_per_hour))
    operational_head = max(required_head, minimum_head_at_rate)
    efficiency = self._efficiency(rate_m3_per_hour=operating_rate_m3_per_hour, head_joule_per_kg=operational_head)
    speed_rpm = self._speed_at_operating_point(rate_m3_per_hour=operating_rate_m3_per_hour, head_joule_per_kg=operational_head)
    specific_shaft_work = operational_head / efficiency
    operating_mass_rate_kg_per_h = operating_rate_m3_per_hour * density
    shaft_power_mw = operating_mass_rate_kg_per_h * specific_shaft_work / 3600.0 / 1000000.0
    operational_discharge_pressure_bara = inlet_stream.pressure_bara + Unit.PASCAL.to(Unit.BARA)(operational_head * density)
    maximum_head_at_rate = float(self._pump_chart.maximum_head_as_function_of_rate(operating_rate_m3_per_hour))
    return PumpEvaluationResult(inlet_stream=inlet_stream, shaft_power_mw=shaft_power_mw, efficiency=efficiency, specific_shaft_work_joule_per_kg=specific_shaft_work, required_head_joule_per_kg=required_head, operational_head_joule_per_kg=operational_head, operational_volumetric_rate_m3_per_hour=operating_rate_m3_per_hour, recirculation_rate_m3_per_hour=operating_rate_m3_per_hour - rate_m3_per_hour, required_discharge_pressure_bara=discharge_pressure_bara, operational_discharge_pressure_bara=operational_discharge_pressure_bara, speed_rpm=speed_rpm, failure_status=self._determine_failure_status(head_joule_per_kg=operational_head, maximum_head_at_rate=maximum_head_at_rate, rate_m3_per_hour=operating_rate_m3_per_hour), process_unit_id=self._id)


@target("libecalc.process.pump.pump.Pump.get_max_volumetric_rate_m3_per_day", props=["C22"])
def Pump_get_max_volumetric_rate_m3_per_day(self, suction_pressure, discharge_pressure, density):
    head = self._calculate_head(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, density=density)
    return float(self._pump_chart.maximum_rate_as_function_of_head(head) * UnitConstants.HOURS_PER_DAY)


@target("libecalc.process.pump.pump.Pump._validate_discharge_pressure", props=["C22"])
def Pump_validate_discharge_pressure(discharge_pressure_bara):
    if discharge_pressure_bara <= 0:
        raise NonPositivePressureException(discharge_pressure_bara)


@target("libecalc.process.pump.pump.Pump._calculate_head", props=["C22"])
def Pump_calculate_head(suction_pressure, discharge_pressure, density):
    return Unit.BARA.to(Unit.PASCAL)(discharge_pressure - suction_pressure) / density


@target("libecalc.process.pump.pump.Pump._efficiency", props=["C22"])
def Pump_efficiency(self, rate_m3_per_hour, head_joule_per_kg):
    if self._pump_chart.is_100_percent_efficient:
        return 1.0
    return float(self._pump_chart.efficiency_as_function_of_rate_and_head(rates=np.asarray([rate_m3_per_hour]), heads=np.asarray([head_joule_per_kg]))[0])


@target("libecalc.process.pump.pump.Pump._speed_at_operating_point", props=["C22"])
def Pump_speed_at_operating_point(self, rate_m3_per_hour, head_joule_per_kg):
    curves = sorted(self._pump_chart.curves, key=lambda curve: curve.speed_rpm)
    if len(curves) == 1:
        return float(curves[0].speed_rpm)
    speeds = [float(curve.speed_rpm) for curve in curves]
    heads = [float(curve.head_as_function_of_rate(rate_m3_per_hour)) for curve in curves]
    if head_joule_per_kg <= heads[0]:
        return speeds[0]
    if head_joule_per_kg >= heads[-1]:
        return speeds[-1]
    for index in range(len(curves) - 1):
        head_low, head_high = (heads[index], heads[index + 1])
        if head_low <= head_joule_per_kg <= head_high:
            fraction = (head_joule_per_kg - head_low) / (head_high - head_low) if head_high != head_low else 0.0
            return speeds[index] + fraction * (speeds[index + 1] - speeds[index])
    return speeds[-1]


@target("libecalc.process.pump.pump.Pump._determine_failure_status", props=["C22"])
def Pump_determine_failure_status(self, head_joule_per_kg, maximum_head_at_rate, rate_m3_per_hour):
    above_maximum_head = head_joule_per_kg > maximum_head_at_rate
    above_maximum_rate = rate_m3_per_hour > float(self._pump_chart.maximum_rate)
    if above_maximum_head and above_maximum_rate:
        return PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE
    if above_maximum_head:
        return PumpFailureStatus.ABOVE_MAXIMUM_HEAD_AT_RATE
    if above_maximum_rate:
        return PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE
    return PumpFailureStatus.NO_FAILURE


@target("libecalc.process.pump.pump.Pump._validate_pump_chart_efficiency", props=["C22"])
def Pump_validate_pump_chart_efficiency(self):
    if any((efficiency <= 0 for curve in self._pump_chart.curves for efficiency in curve.efficiency)):
        raise EcalcValidationException('Pump efficiency must be greater than zero.')


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnitType", props=["C22"])
class LiquidProcessUnitTypeValues:
    INLET = 'INLET'
    DIRECT_MIXER = 'DIRECT_MIXER'
    PUMP = 'PUMP'
    DIRECT_SPLITTER = 'DIRECT_SPLITTER'
    CHOKE = 'CHOKE'
    OUTLET = 'OUTLET'


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnit.__init__", props=["C22"])
def LiquidProcessUnit_init(self, unit_type, name, id=None):
    self._id = id or LiquidProcessUnit._create_id()
    self._unit_type = unit_type
    self._name = name


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnit.get_id", props=["C22"])
def LiquidProcessUnit_get_id(self):
    return self._id


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnit.unit_type", props=["C22"])
def LiquidProcessUnit_unit_type(self):
    return self._unit_type


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnit.name", props=["C22"])
def LiquidProcessUnit_name(self):
    return self._name


@target("libecalc.process.pump.pump_process_simulation.LiquidProcessUnit._create_id", props=["C22"])
def LiquidProcessUnit_create_id(cls):
    return ProcessUnitId(ecalc_id_generator())


@target("libecalc.process.pump.pump_process_simulation.LiquidRecirculationLoop.__init__", props=["C22"])
def LiquidRecirculationLoop_init(self, splitter_id, mixer_id, id=None):
    self._id = id or LiquidRecirculationLoop._create_id()
    self._splitter_id = splitter_id
    self._mixer_id = mixer_id


@target("libecalc.process.pump.pump_process_simulation.LiquidRecirculationLoop.get_id", props=["C22"])
def LiquidRecirculationLoop_get_id(self):
    return self._id


@target("libecalc.process.pump.pump_process_simulation.LiquidRecirculationLoop.splitter_id", props=["C22"])
def LiquidRecirculationLoop_splitter_id(self):
    return self._splitter_id


@target("libecalc.process.pump.pump_process_simulation.LiquidRecirculationLoop.mixer_id", props=["C22"])
def LiquidRecirculationLoop_mixer_id(self):
    return self._mixer_id


@target("libecalc.process.pump.pump_process_simulation.LiquidRecirculationLoop._create_id", props=["C22"])
def LiquidRecirculationLoop_create_id(cls):
    return LiquidRecirculationLoopId(ecalc_id_generator())


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.__init__", props=["C22"])
def PumpProcessSimulation_init(self, pump, name='pump', process_simulation_id=None):
    self._id = process_simulation_id or PumpProcessSimulation._create_id()
    self._name = name
    self._pump = pump
    inlet = LiquidProcessUnit(LiquidProcessUnitType.INLET, 'inlet')
    mixer = LiquidProcessUnit(LiquidProcessUnitType.DIRECT_MIXER, 'recirculation_mixer')
    pump_unit = LiquidProcessUnit(LiquidProcessUnitType.PUMP, name, id=self._pump.get_id())
    splitter = LiquidProcessUnit(LiquidProcessUnitType.DIRECT_SPLITTER, 'recirculation_splitter')
    choke = LiquidProcessUnit(LiquidProcessUnitType.CHOKE, 'choke')
    outlet = LiquidProcessUnit(LiquidProcessUnitType.OUTLET, 'outlet')
    self._units = (inlet, mixer, pump_unit, splitter, choke, outlet)
    self._connections = (ProcessUnitConnection(from_process_unit_id=inlet.get_id(), to_process_unit_id=mixer.get_id()), ProcessUnitConnection(from_process_unit_id=mixer.get_id(), to_process_unit_id=pump_unit.get_id()), ProcessUnitConnection(from_process_unit_id=pump_unit.get_id(), to_process_unit_id=splitter.get_id()), ProcessUnitConnection(from_process_unit_id=splitter.get_id(), to_process_unit_id=choke.get_id()), ProcessUnitConnection(from_process_unit_id=choke.get_id(), to_process_unit_id=outlet.get_id()))
    self._recirculation_loop = LiquidRecirculationLoop(splitter_id=splitter.get_id(), mixer_id=mixer.get_id())


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_id", props=["C22"])
def PumpProcessSimulation_get_id(self):
    return self._id


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_name", props=["C22"])
def PumpProcessSimulation_get_name(self):
    return self._name


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_process_units", props=["C22"])
def PumpProcessSimulation_get_process_units(self):
    return self._units


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_process_unit_connections", props=["C22"])
def PumpProcessSimulation_get_process_unit_connections(self):
    return self._connections


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_recirculation_loop", props=["C22"])
def PumpProcessSimulation_get_recirculation_loop(self):
    return self._recirculation_loop


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_pump_chart", props=["C22"])
def PumpProcessSimulation_get_pump_chart(self):
    return self._pump.pump_chart


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.get_minimum_flow_rate_m3_per_hour", props=["C22"])
def PumpProcessSimulation_get_minimum_flow_rate_m3_per_hour(self):
    return self._pump.minimum_flow_rate_m3_per_hour


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation._create_id", props=["C22"])
def PumpProcessSimulation_create_id(cls):
    return PumpProcessSimulationId(ecalc_id_generator())


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation.evaluate", props=["C22"])
def PumpProcessSimulation_evaluate(self, operating_inputs):
    return tuple((self._evaluate_one(operating_input) for operating_input in operating_inputs))


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation._evaluate_one", props=["C22"])
def PumpProcessSimulation_evaluate_one(self, operating_input):
    pump_result = self._pump.evaluate(inlet_stream=operating_input.inlet_stream, discharge_pressure_bara=operating_input.required_discharge_pressure_bara)
    return PumpOperatingResult(pump_result=pump_result, connection_streams=self._project_streams(pump_result))


@target("libecalc.process.pump.pump_process_simulation.PumpProcessSimulation._project_streams", props=["C22"])
def PumpProcessSimulation_project_streams(self, pump_result):
    requested_stream = pump_result.inlet_stream
    operating_stream_at_suction = requested_stream.with_mass_rate(pump_result.operational_volumetric_rate_m3_per_hour * requested_stream.density_kg_per_m3)
    operating_stream_after_pump = operating_stream_at_suction.with_pressure(pump_result.operational_discharge_pressure_bara)
    delivered_stream_before_choke = requested_stream.with_pressure(pump_result.operational_discharge_pressure_bara)
    delivered_pressure_bara = min(pump_result.operational_discharge_pressure_bara, pump_result.required_discharge_pressure_bara)
    delivered_stream_after_choke = requested_stream.with_pressure(delivered_pressure_bara)
    streams = (requested_stream, operating_stream_at_suction, operating_stream_after_pump, delivered_stream_before_choke, delivered_stream_after_choke)
    return MappingProxyType({connection.get_id(): stream for connection, stream in zip(self._connections, streams, strict=True)})


@target("libecalc.domain.process.pump.pump", props=["C22"])
class K51_constants:
    EPSILON = 1e-15


@target("libecalc.domain.process.pump.pump.PumpModel.__init__", props=["C22"])
def PumpModel_init(self, pump_chart, head_margin=0.0):
    self._pump_chart = Chart(pump_chart)
    self._head_margin = head_margin


@target("libecalc.domain.process.pump.pump.PumpModel.get_max_standard_rates", props=["C22"])
def PumpModel_get_max_standard_rates(self, suction_pressures, discharge_pressures, fluid_densities=1.0):
    if isinstance(fluid_densities, float):
        fluid_densities = np.full_like(suction_pressures, fluid_densities)
    max_rates = []
    for suction_pressure, discharge_pressure, density in zip(suction_pressures, discharge_pressures, fluid_densities):
        max_rate = self.get_max_standard_rate(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_density=density)
        max_rates.append(max_rate)
    return np.asarray(max_rates)


@target("libecalc.domain.process.pump.pump.PumpModel.get_max_standard_rate", props=["C22"])
def PumpModel_get_max_standard_rate(self, suction_pressure, discharge_pressure, fluid_density=1.0):
    head = self._calculate_head(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, density=fluid_density)
    max_rate = self._pump_chart.maximum_rate_as_function_of_head(head) * UnitConstants.HOURS_PER_DAY
    return max_rate


@target("libecalc.domain.process.pump.pump.PumpModel._calculate_head", props=["C22"])
def PumpModel_calculate_head(suction_pressure, discharge_pressure, density):
    return Unit.BARA.to(Unit.PASCAL)(discharge_pressure - suction_pressure) / density


@target("libecalc.domain.process.pump.pump.PumpModel._calculate_power", props=["C22"])
def PumpModel_calculate_power(density, head_joule_per_kg, efficiency, rate):
    return density * head_joule_per_kg * rate / UnitConstants.SECONDS_PER_HOUR / UnitConstants.WATT_PER_MEGAWATT / efficiency


@target("libecalc.domain.process.pump.pump.PumpModel.evaluate_rate_ps_pd_density", props=["C22"])
def PumpModel_evaluate_rate_ps_pd_density(self, rates, suction_pressures, discharge_pressures, fluid_densities):
    power_out_array = []
    operational_heads = []
    failure_statuses = []
    for rate, suction_pressure, discharge_pressure, density in zip(rates, suction_pressures, discharge_pressures, fluid_densities):
        power_out, operational_head, failure_status = self.simulate(rate=rate, suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, fluid_density=density)
        power_out_array.append(power_out)
        operational_heads.append(operational_head)
        failure_statuses.append(failure_status)
    return PumpModelResult(energy_usage=power_out_array, energy_usage_unit=Unit.MEGA_WATT, power=power_out_array, power_unit=Unit.MEGA_WATT, rate=list(rates), suction_pressure=list(suction_pressures), discharge_pressure=list(discharge_pressures), fluid_density=list(fluid_densities), operational_head=operational_heads, failure_status=failure_statuses)


@target("libecalc.domain.process.pump.pump.PumpModel.simulate", props=["C22"])
def PumpModel_simulate(self, rate, suction_pressure, discharge_pressure, fluid_density):
    if rate <= 0:
        return (0.0, 0.0, PumpFailureStatus.NO_FAILURE)
    rate_m3_per_hour = rate / UnitConstants.HOURS_PER_DAY
    operational_head = self._calculate_head(suction_pressure=suction_pressure, discharge_pressure=discharge_pressure, density=fluid_density)
    minimum_flow_at_head = float(self._pump_chart.minimum_rate_as_function_of_head(operational_head))
    rate_m3_per_hour = max(rate_m3_per_hour, minimum_flow_at_head + EPSILON)
    minimum_head_at_rate = float(self._pump_chart.minimum_head_as_function_of_rate(rate_m3_per_hour))
    head = max(operational_head, minimum_head_at_rate + EPSILON)
    maximum_head_at_rate = self._pump_chart.maximum_head_as_function_of_rate(rate_m3_per_hour)
    head = _adjust_for_head_margin(head=head, maximum_head=maximum_head_at_rate, head_margin=self._head_margin)
    failure_status = PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE if head > maximum_head_at_rate and rate_m3_per_hour > self._pump_chart.maximum_rate else PumpFailureStatus.ABOVE_MAXIMUM_HEAD_AT_RATE if head > maximum_head_at_rate else PumpFailureStatus.ABOVE_MAXIMUM_PUMP_RATE if rate_m3_per_hour > self._pump_chart.maximum_rate else PumpFailureStatus.NO_FAILURE
    power_before_efficiency_is_applied = self._calculate_power(density=fluid_density, head_joule_per_kg=head, rate=rate_m3_per_hour, efficiency=1)
    power = power_before_efficiency_is_applied
    if not self._pump_chart.is_100_percent_efficient:
        efficiency = self._pump_chart.efficiency_as_function_of_rate_and_head(rates=np.asarray([rate_m3_per_hour]), heads=np.asarray([head]))
        power = power_before_efficiency_is_applied / efficiency[0]
    power_out = power
    return (power_out, operational_head, failure_status)


@target("libecalc.domain.process.pump.pump.PumpModel.set_evaluation_input", props=["C22"])
def PumpModel_set_evaluation_input(self, stream_day_rate, fluid_density, suction_pressure, discharge_pressure):
    self._stream_day_rate = stream_day_rate
    self._fluid_density = fluid_density
    self._suction_pressure = suction_pressure
    self._discharge_pressure = discharge_pressure


@target("libecalc.domain.process.pump.pump.PumpModel.evaluate", props=["C22"])
def PumpModel_evaluate(self):
    pump_model_result = self.evaluate_rate_ps_pd_density(rates=self._stream_day_rate, suction_pressures=self._suction_pressure, discharge_pressures=self._discharge_pressure, fluid_densities=self._fluid_density)
    return pump_model_result


@target("libecalc.domain.process.pump.pump._adjust_heads_for_head_margin", props=["C22"])
def f_adjust_heads_for_head_margin(heads, maximum_heads, head_margin):
    heads_adjusted = []
    for head, maximum_head in zip(heads, maximum_heads):
        adjusted_head = _adjust_for_head_margin(head, maximum_head, head_margin)
        heads_adjusted.append(adjusted_head)
    return np.asarray(heads_adjusted)


@target("libecalc.domain.process.pump.pump._adjust_for_head_margin", props=["C22"])
def f_adjust_for_head_margin(head, maximum_head, head_margin):
    if head_margin:
        if head > maximum_head and head <= maximum_head + head_margin:
            head = maximum_head
    return head
