# Reference equations (parsed by the checker, never executed).
from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.common.units import UnitConstants
from libecalc.common.utils.ecalc_uuid import ecalc_id_generator
from libecalc.domain.process.compressor.core.train.utils.common import calculate_outlet_pressure_and_stream
from libecalc.domain.process.value_objects.chart.compressor import CompressorChart
from libecalc.process.fluid_stream.constants import ThermodynamicConstants
from libecalc.process.fluid_stream.stream_mixer import StreamMixer
from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError, InsufficientInletPressureError, LiquidAtInletError, OfftakeExceedsInletError
from libecalc.process.process_pipeline.process_pipeline import ProcessPipeline, ProcessPipelineSection, ProcessUnitConnection
from libecalc.process.process_pipeline.process_unit import ProcessUnit
from libecalc.process.process_solver.boundary import Boundary
from libecalc.process.process_solver.configuration_handler import ConfigurationHandler
from libecalc.process.process_units.compressor import OperationalPoint
RECIRCULATION_BOUNDARY_TOLERANCE = 1e-06


@target("libecalc.process.process_units.choke.Choke.__init__", props=["C19"])
def Choke_init(self, fluid_service, process_unit_id=None, pressure_change=0.0):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._pressure_change = pressure_change
    self._fluid_service = fluid_service


@target("libecalc.process.process_units.choke.Choke.get_id", props=["C19"])
def Choke_get_id(self):
    return self._id


@target("libecalc.process.process_units.choke.Choke.pressure_change", props=["C19"])
def Choke_pressure_change(self):
    return self._pressure_change


@target("libecalc.process.process_units.choke.Choke.set_pressure_change", props=["C19"])
def Choke_set_pressure_change(self, pressure_change):
    if pressure_change < 0:
        raise ValueError()
    self._pressure_change = pressure_change


@target("libecalc.process.process_units.choke.Choke.propagate_stream", props=["C19"])
def Choke_propagate_stream(self, inlet_stream):
    if self._pressure_change > 0.0:
        pressure_bara = inlet_stream.pressure_bara - self._pressure_change
        if pressure_bara < 0.0:
            raise InsufficientInletPressureError(process_unit_id=self._id, inlet_pressure_bara=inlet_stream.pressure_bara, required_delta_pressure_bara=self._pressure_change)
    else:
        return inlet_stream
    return self._fluid_service.create_stream_from_standard_rate(fluid_model=inlet_stream.fluid_model, pressure_bara=pressure_bara, temperature_kelvin=inlet_stream.temperature_kelvin, standard_rate_m3_per_day=inlet_stream.standard_rate_sm3_per_day)


@target("libecalc.process.process_units.compressor.Compressor.__init__", props=["C19"])
def Compressor_init(self, compressor_chart, fluid_service, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._compressor_chart = CompressorChart(compressor_chart)
    self._fluid_service = fluid_service
    self._speed = None


@target("libecalc.process.process_units.compressor.Compressor.get_id", props=["C19"])
def Compressor_get_id(self):
    return self._id


@target("libecalc.process.process_units.compressor.Compressor.propagate_stream", props=["C19"])
def Compressor_propagate_stream(self, inlet_stream):
    if inlet_stream.vapor_fraction_molar < ThermodynamicConstants.PURE_VAPOR_THRESHOLD:
        raise LiquidAtInletError(process_unit_id=self._id, vapor_fraction=inlet_stream.vapor_fraction_molar)
    actual_rate = inlet_stream.volumetric_rate_m3_per_hour
    if actual_rate < self.minimum_flow_rate:
        raise CompressorSurgeError(actual_rate=actual_rate, boundary_rate=self.minimum_flow_rate, process_unit_id=self._id)
    if actual_rate > self.maximum_flow_rate:
        raise CompressorStonewallError(actual_rate=actual_rate, boundary_rate=self.maximum_flow_rate, process_unit_id=self._id)
    operational_point = self.get_operational_point(inlet_stream=inlet_stream)
    return calculate_outlet_pressure_and_stream(polytropic_efficiency=operational_point.polytropic_efficiency, polytropic_head_joule_per_kg=operational_point.polytropic_head_joule_per_kg, inlet_stream=inlet_stream, fluid_service=self._fluid_service)


@target("libecalc.process.process_units.compressor.Compressor.get_operational_point", props=["C19"])
def Compressor_get_operational_point(self, inlet_stream):
    actual_rate_am3_h = inlet_stream.volumetric_rate_m3_per_hour
    chart_curve_at_given_speed = self.compressor_chart.get_curve_by_speed(speed=self.speed)
    if chart_curve_at_given_speed is not None:
        polytropic_head = float(chart_curve_at_given_speed.head_as_function_of_rate(actual_rate_am3_h))
        polytropic_efficiency = float(chart_curve_at_given_speed.efficiency_as_function_of_rate(actual_rate_am3_h))
    else:
        polytropic_head, polytropic_efficiency = self.compressor_chart.calculate_head_and_efficiency_for_internal_point_between_given_speeds(speed=self.speed, rate=actual_rate_am3_h)
    return OperationalPoint(actual_rate_am3_h=actual_rate_am3_h, polytropic_efficiency=polytropic_efficiency, polytropic_head_joule_per_kg=polytropic_head)


@target("libecalc.process.process_units.compressor.Compressor.compressor_chart", props=["C19"])
def Compressor_compressor_chart(self):
    return self._compressor_chart


@target("libecalc.process.process_units.compressor.Compressor.speed", props=["C19"])
def Compressor_speed(self):
    if self._speed is None:
        raise ValueError()
    return self._speed


@target("libecalc.process.process_units.compressor.Compressor.minimum_flow_rate", props=["C19"])
def Compressor_minimum_flow_rate(self):
    return self.compressor_chart.minimum_rate_as_function_of_speed(self.speed)


@target("libecalc.process.process_units.compressor.Compressor.maximum_flow_rate", props=["C19"])
def Compressor_maximum_flow_rate(self):
    return self.compressor_chart.maximum_rate_as_function_of_speed(self.speed)


@target("libecalc.process.process_units.compressor.Compressor.set_speed", props=["C19"])
def Compressor_set_speed(self, speed):
    self._speed = speed


@target("libecalc.process.process_units.compressor.Compressor.get_minimum_standard_rate", props=["C19"])
def Compressor_get_minimum_standard_rate(self, inlet_stream):
    density = inlet_stream.density
    min_actual_rate = self.compressor_chart.minimum_rate_as_function_of_speed(self.speed)
    min_mass_rate_kg_per_h = min_actual_rate * density
    return self._fluid_service.mass_rate_to_standard_rate(fluid_model=inlet_stream.fluid_model, mass_rate_kg_per_h=min_mass_rate_kg_per_h) + RECIRCULATION_BOUNDARY_TOLERANCE


@target("libecalc.process.process_units.compressor.Compressor.get_maximum_standard_rate", props=["C19"])
def Compressor_get_maximum_standard_rate(self, inlet_stream):
    density = inlet_stream.density
    max_actual_rate = self.compressor_chart.maximum_rate_as_function_of_speed(self.speed)
    max_mass_rate_kg_per_h = max_actual_rate * density
    return self._fluid_service.mass_rate_to_standard_rate(fluid_model=inlet_stream.fluid_model, mass_rate_kg_per_h=max_mass_rate_kg_per_h) - RECIRCULATION_BOUNDARY_TOLERANCE


@target("libecalc.process.process_units.compressor.Compressor.get_recirculation_range", props=["C19"])
def Compressor_get_recirculation_range(self, inlet_stream):
    min_rate = self.get_minimum_standard_rate(inlet_stream)
    max_rate = self.get_maximum_standard_rate(inlet_stream)
    return Boundary(min=max(0.0, min_rate - inlet_stream.standard_rate_sm3_per_day), max=max(0.0, max_rate - inlet_stream.standard_rate_sm3_per_day))


@target("libecalc.process.process_units.direct_mixer.DirectMixer.__init__", props=["C19"])
def DirectMixer_init(self, mix_rate=0, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._mix_rate = mix_rate


@target("libecalc.process.process_units.direct_mixer.DirectMixer.get_id", props=["C19"])
def DirectMixer_get_id(self):
    return self._id


@target("libecalc.process.process_units.direct_mixer.DirectMixer.propagate_stream", props=["C19"])
def DirectMixer_propagate_stream(self, inlet_stream):
    added_mass_kg_per_h = self._mix_rate * inlet_stream.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
    return inlet_stream.with_mass_rate(inlet_stream.mass_rate_kg_per_h + added_mass_kg_per_h)


@target("libecalc.process.process_units.direct_mixer.DirectMixer.get_mix_rate", props=["C19"])
def DirectMixer_get_mix_rate(self):
    return self._mix_rate


@target("libecalc.process.process_units.direct_mixer.DirectMixer.set_mix_rate", props=["C19"])
def DirectMixer_set_mix_rate(self, mix_rate):
    self._mix_rate = mix_rate


@target("libecalc.process.process_units.direct_splitter.DirectSplitter.__init__", props=["C19"])
def DirectSplitter_init(self, process_unit_id=None, split_rate=0):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._split_rate = split_rate


@target("libecalc.process.process_units.direct_splitter.DirectSplitter.get_id", props=["C19"])
def DirectSplitter_get_id(self):
    return self._id


@target("libecalc.process.process_units.direct_splitter.DirectSplitter.propagate_stream", props=["C19"])
def DirectSplitter_propagate_stream(self, inlet_stream):
    removed_mass_kg_per_h = self._split_rate * inlet_stream.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
    return inlet_stream.with_mass_rate(inlet_stream.mass_rate_kg_per_h - removed_mass_kg_per_h)


@target("libecalc.process.process_units.direct_splitter.DirectSplitter.set_split_rate", props=["C19"])
def DirectSplitter_set_split_rate(self, split_rate):
    self._split_rate = split_rate


@target("libecalc.process.process_units.inlet.Inlet.__init__", props=["C19"])
def Inlet_init(self, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()


@target("libecalc.process.process_units.inlet.Inlet.get_id", props=["C19"])
def Inlet_get_id(self):
    return self._id


@target("libecalc.process.process_units.inlet.Inlet.propagate_stream", props=["C19"])
def Inlet_propagate_stream(self, inlet_stream):
    return inlet_stream


@target("libecalc.process.process_units.liquid_remover.LiquidRemover.__init__", props=["C19"])
def LiquidRemover_init(self, fluid_service, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._fluid_service = fluid_service


@target("libecalc.process.process_units.liquid_remover.LiquidRemover.get_id", props=["C19"])
def LiquidRemover_get_id(self):
    return self._id


@target("libecalc.process.process_units.liquid_remover.LiquidRemover.propagate_stream", props=["C19"])
def LiquidRemover_propagate_stream(self, inlet_stream):
    if inlet_stream.vapor_fraction_molar < ThermodynamicConstants.PURE_VAPOR_THRESHOLD:
        new_fluid = self._fluid_service.remove_liquid(inlet_stream.fluid)
        inlet_molar_mass = inlet_stream.fluid.molar_mass
        gas_mass_fraction = inlet_stream.vapor_fraction_molar * new_fluid.molar_mass / inlet_molar_mass
        new_mass_rate = inlet_stream.mass_rate_kg_per_h * gas_mass_fraction
        return inlet_stream.with_new_fluid(new_fluid).with_mass_rate(new_mass_rate)
    else:
        return inlet_stream


@target("libecalc.process.process_units.mixer.Mixer.__init__", props=["C19"])
def Mixer_init(self, fluid_service, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._mixer = StreamMixer(fluid_service)
    self._external_stream = None


@target("libecalc.process.process_units.mixer.Mixer.get_id", props=["C19"])
def Mixer_get_id(self):
    return self._id


@target("libecalc.process.process_units.mixer.Mixer.set_stream", props=["C19"])
def Mixer_set_stream(self, stream):
    self._external_stream = stream


@target("libecalc.process.process_units.mixer.Mixer.propagate_stream", props=["C19"])
def Mixer_propagate_stream(self, inlet_stream):
    if self._external_stream is None:
        raise ValueError()
    return self._mixer.mix_streams([inlet_stream, self._external_stream])


@target("libecalc.process.process_units.outlet.Outlet.__init__", props=["C19"])
def Outlet_init(self, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()


@target("libecalc.process.process_units.outlet.Outlet.get_id", props=["C19"])
def Outlet_get_id(self):
    return self._id


@target("libecalc.process.process_units.outlet.Outlet.propagate_stream", props=["C19"])
def Outlet_propagate_stream(self, inlet_stream):
    return inlet_stream


@target("libecalc.process.process_units.pressure_dropper.PressureDropper.__init__", props=["C19"])
def PressureDropper_init(self, fluid_service, process_unit_id=None, pressure_drop_bara=0.0):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._pressure_drop_bara = pressure_drop_bara
    self._fluid_service = fluid_service


@target("libecalc.process.process_units.pressure_dropper.PressureDropper.get_id", props=["C19"])
def PressureDropper_get_id(self):
    return self._id


@target("libecalc.process.process_units.pressure_dropper.PressureDropper.pressure_drop", props=["C19"])
def PressureDropper_pressure_drop(self):
    return self._pressure_drop_bara


@target("libecalc.process.process_units.pressure_dropper.PressureDropper.set_pressure_drop", props=["C19"])
def PressureDropper_set_pressure_drop(self, pressure_drop_bara):
    if pressure_drop_bara < 0:
        raise ValueError()
    self._pressure_drop_bara = pressure_drop_bara


@target("libecalc.process.process_units.pressure_dropper.PressureDropper.propagate_stream", props=["C19"])
def PressureDropper_propagate_stream(self, inlet_stream):
    if self._pressure_drop_bara > 0.0:
        new_pressure_bara = inlet_stream.pressure_bara - self._pressure_drop_bara
        if new_pressure_bara < 0.0:
            raise InsufficientInletPressureError(process_unit_id=self._id, inlet_pressure_bara=inlet_stream.pressure_bara, required_delta_pressure_bara=self._pressure_drop_bara)
    else:
        return inlet_stream
    return self._fluid_service.create_stream_from_standard_rate(fluid_model=inlet_stream.fluid_model, pressure_bara=new_pressure_bara, temperature_kelvin=inlet_stream.temperature_kelvin, standard_rate_m3_per_day=inlet_stream.standard_rate_sm3_per_day)


@target("libecalc.process.process_units.splitter.Splitter.__init__", props=["C19"])
def Splitter_init(self, fluid_service, process_unit_id=None, rate=0.0):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._fluid_service = fluid_service
    self._rate = rate


@target("libecalc.process.process_units.splitter.Splitter.get_id", props=["C19"])
def Splitter_get_id(self):
    return self._id


@target("libecalc.process.process_units.splitter.Splitter.set_rate", props=["C19"])
def Splitter_set_rate(self, rate):
    self._rate = rate


@target("libecalc.process.process_units.splitter.Splitter.get_rate", props=["C19"])
def Splitter_get_rate(self):
    return self._rate


@target("libecalc.process.process_units.splitter.Splitter.propagate_stream", props=["C19"])
def Splitter_propagate_stream(self, inlet_stream):
    remaining_rate = inlet_stream.standard_rate_sm3_per_day - self._rate
    if remaining_rate < 0.0:
        raise OfftakeExceedsInletError(process_unit_id=self._id, available_rate=inlet_stream.standard_rate_sm3_per_day, offtake_rate=self._rate)
    return self._fluid_service.create_stream_from_standard_rate(fluid_model=inlet_stream.fluid_model, pressure_bara=inlet_stream.pressure_bara, temperature_kelvin=inlet_stream.temperature_kelvin, standard_rate_m3_per_day=remaining_rate)


@target("libecalc.process.process_units.splitter.Splitter.get_split_stream", props=["C19"])
def Splitter_get_split_stream(self, inlet_stream):
    return self._fluid_service.create_stream_from_standard_rate(fluid_model=inlet_stream.fluid_model, pressure_bara=inlet_stream.pressure_bara, temperature_kelvin=inlet_stream.temperature_kelvin, standard_rate_m3_per_day=self._rate)


@target("libecalc.process.process_units.temperature_setter.TemperatureSetter.__init__", props=["C19"])
def TemperatureSetter_init(self, fluid_service, required_temperature_kelvin=0, process_unit_id=None):
    self._id = process_unit_id or ProcessUnit._create_id()
    self._required_temperature_kelvin = required_temperature_kelvin
    self._fluid_service = fluid_service


@target("libecalc.process.process_units.temperature_setter.TemperatureSetter.get_id", props=["C19"])
def TemperatureSetter_get_id(self):
    return self._id


@target("libecalc.process.process_units.temperature_setter.TemperatureSetter.set_temperature", props=["C19"])
def TemperatureSetter_set_temperature(self, temperature_kelvin):
    self._required_temperature_kelvin = temperature_kelvin


@target("libecalc.process.process_units.temperature_setter.TemperatureSetter.required_temperature_kelvin", props=["C19"])
def TemperatureSetter_required_temperature_kelvin(self):
    return self._required_temperature_kelvin


@target("libecalc.process.process_units.temperature_setter.TemperatureSetter.propagate_stream", props=["C19"])
def TemperatureSetter_propagate_stream(self, inlet_stream):
    if inlet_stream.temperature_kelvin != self.required_temperature_kelvin:
        new_fluid = self._fluid_service.create_fluid(inlet_stream.fluid_model, inlet_stream.pressure_bara, self.required_temperature_kelvin)
        return inlet_stream.with_new_fluid(new_fluid)
    return inlet_stream


@target("libecalc.process.shaft.Shaft.__init__", props=["C19"])
def Shaft_init(self, configuration_handler_id=None, speed_rpm=None, compressors=None):
    self._id = configuration_handler_id or ConfigurationHandler._create_id()
    self._speed_rpm = speed_rpm
    self._compressors = compressors or []


@target("libecalc.process.shaft.Shaft.get_id", props=["C19"])
def Shaft_get_id(self):
    return self._id


@target("libecalc.process.shaft.Shaft.handle_configuration", props=["C19"])
def Shaft_handle_configuration(self, configuration):
    self.set_speed(configuration.value.speed)


@target("libecalc.process.shaft.Shaft.reset", props=["C19"])
def Shaft_reset(self):
    self.reset_speed()


@target("libecalc.process.shaft.Shaft.get_compressor_ids", props=["C19"])
def Shaft_get_compressor_ids(self):
    return [compressor.get_id() for compressor in self._compressors]


@target("libecalc.process.shaft.Shaft.connect", props=["C19"])
def Shaft_connect(self, compressor):
    if compressor in self._compressors:
        raise ProgrammingError('Compressor is already registered on this shaft.')
    self._compressors.append(compressor)


@target("libecalc.process.shaft.Shaft.get_speed", props=["C19"])
def Shaft_get_speed(self):
    if self._speed_rpm is None:
        return float('nan')
    return self._speed_rpm


@target("libecalc.process.shaft.Shaft.reset_speed", props=["C19"])
def Shaft_reset_speed(self):
    self._speed_rpm = None


@target("libecalc.process.shaft.Shaft.speed_is_defined", props=["C19"])
def Shaft_speed_is_defined(self):
    return self._speed_rpm is not None


@target("libecalc.process.shaft.Shaft.get_speed_boundary", props=["C19"])
def Shaft_get_speed_boundary(self):
    if not self._compressors:
        raise ValueError()
    min_speed = max((c.compressor_chart.minimum_speed for c in self._compressors))
    max_speed = min((c.compressor_chart.maximum_speed for c in self._compressors))
    return Boundary(min=min_speed, max=max_speed)


@target("libecalc.process.shaft.Shaft._apply_speed", props=["C19"])
def Shaft_apply_speed(self, value):
    self._speed_rpm = value
    for compressor in self._compressors:
        compressor.set_speed(value)


@target("libecalc.process.shaft.SingleSpeedShaft.set_speed", props=["C19"])
def SingleSpeedShaft_set_speed(self, value):
    if self._speed_rpm is None:
        self._apply_speed(value)
    elif value != self._speed_rpm:
        raise AttributeError('Speed has already been set. Cannot modify speed of SingleSpeedShaft')


@target("libecalc.process.shaft.VariableSpeedShaft.set_speed", props=["C19"])
def VariableSpeedShaft_set_speed(self, value):
    self._apply_speed(value)


@target("libecalc.process.process_pipeline.process_error.ProcessError.__init__", props=["C19"])
def ProcessError_init(self, reason=None):
    self.reason = reason
    super().__init__(title='Unable to produce an outlet stream', message=reason or '')


@target("libecalc.process.process_pipeline.process_error.CompressorSurgeError.__init__", props=["C19"])
def CompressorSurgeError_init(self, process_unit_id, actual_rate=None, boundary_rate=None):
    self.actual_rate = actual_rate
    self.boundary_rate = boundary_rate
    self.process_unit_id = process_unit_id
    super().__init__(f'Compressor {process_unit_id} is below surge line' + (f': actual {actual_rate:.3f}, minimum {boundary_rate:.3f} m³/h.' if actual_rate and boundary_rate else '.'))


@target("libecalc.process.process_pipeline.process_error.CompressorStonewallError.__init__", props=["C19"])
def CompressorStonewallError_init(self, process_unit_id, actual_rate=None, boundary_rate=None):
    self.actual_rate = actual_rate
    self.boundary_rate = boundary_rate
    self.process_unit_id = process_unit_id
    super().__init__(f'Compressor {process_unit_id} is above stonewall' + (f': actual {actual_rate:.3f}, maximum {boundary_rate:.3f} m³/h.' if actual_rate and boundary_rate else '.'))


@target("libecalc.process.process_pipeline.process_error.LiquidAtInletError.__init__", props=["C19"])
def LiquidAtInletError_init(self, process_unit_id, vapor_fraction):
    self.process_unit_id = process_unit_id
    self.vapor_fraction = vapor_fraction
    super().__init__(f'Inlet stream contains liquid (vapor fraction: {vapor_fraction:.3f})')


@target("libecalc.process.process_pipeline.process_error.OfftakeExceedsInletError.__init__", props=["C19"])
def OfftakeExceedsInletError_init(self, process_unit_id, available_rate, offtake_rate):
    self.process_unit_id = process_unit_id
    self.available_rate = available_rate
    self.offtake_rate = offtake_rate
    super().__init__(f'Inlet rate {available_rate:.3f} sm³/day is less than demanded rate {offtake_rate:.3f} sm³/day.')


@target("libecalc.process.process_pipeline.process_error.InsufficientInletPressureError.__init__", props=["C19"])
def InsufficientInletPressureError_init(self, process_unit_id, inlet_pressure_bara, required_delta_pressure_bara):
    self.process_unit_id = process_unit_id
    self.inlet_pressure_bara = inlet_pressure_bara
    self.required_delta_pressure_bara = required_delta_pressure_bara
    super().__init__(f'Inlet pressure {inlet_pressure_bara:.3f} bara is insufficient for required pressure drop {required_delta_pressure_bara:.3f} bara.')


@target("libecalc.process.process_pipeline.process_pipeline.PipelineEventAction", props=["C19"])
class PipelineEventActionValues:
    CHANGE = 'CHANGE'
    ADD = 'ADD'
    REMOVE = 'REMOVE'


@target("libecalc.process.process_pipeline.process_pipeline.PipelineEventChangeType", props=["C19"])
class PipelineEventChangeTypeValues:
    REBUNDLE = 'REBUNDLE'


@target("libecalc.process.process_pipeline.process_pipeline.ProcessUnitConnection.__init__", props=["C19"])
def ProcessUnitConnection_init(self, from_process_unit_id, to_process_unit_id, process_unit_connection_id=None):
    self._from_process_unit_id = from_process_unit_id
    self._to_process_unit_id = to_process_unit_id
    self._id = process_unit_connection_id or ProcessUnitConnection._create_id()


@target("libecalc.process.process_pipeline.process_pipeline.ProcessUnitConnection.get_id", props=["C19"])
def ProcessUnitConnection_get_id(self):
    return self._id


@target("libecalc.process.process_pipeline.process_pipeline.ProcessUnitConnection.get_from_process_unit_id", props=["C19"])
def ProcessUnitConnection_get_from_process_unit_id(self):
    return self._from_process_unit_id


@target("libecalc.process.process_pipeline.process_pipeline.ProcessUnitConnection.get_to_process_unit_id", props=["C19"])
def ProcessUnitConnection_get_to_process_unit_id(self):
    return self._to_process_unit_id


@target("libecalc.process.process_pipeline.process_pipeline.ProcessUnitConnection._create_id", props=["C19"])
def ProcessUnitConnection_create_id(cls):
    return ProcessUnitConnectionId(ecalc_id_generator())


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipelineSection.__init__", props=["C19"])
def ProcessPipelineSection_init(self, process_units, process_pipeline_section_id=None):
    self._process_units = process_units
    self._id = process_pipeline_section_id or ProcessPipelineSection._create_id()


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipelineSection.get_id", props=["C19"])
def ProcessPipelineSection_get_id(self):
    return self._id


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipelineSection.get_process_units", props=["C19"])
def ProcessPipelineSection_get_process_units(self):
    return list(self._process_units)


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipelineSection._create_id", props=["C19"])
def ProcessPipelineSection_create_id(cls):
    return ProcessPipelineSectionId(ecalc_id_generator())


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.__init__", props=["C19"])
def ProcessPipeline_init(self, name, process_pipeline_sections, process_periods, process_pipeline_id=None, events=None):
    self._name = name
    self._process_pipeline_sections = process_pipeline_sections
    self._process_periods = process_periods
    self._events = events or []
    self._process_unit_connections = ProcessPipeline._create_process_unit_connections(process_pipeline_sections=process_pipeline_sections)
    self._process_pipeline_id = process_pipeline_id
    self._id = process_pipeline_id or ProcessPipeline._create_id()


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_id", props=["C19"])
def ProcessPipeline_get_id(self):
    return self._id


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_name", props=["C19"])
def ProcessPipeline_get_name(self):
    return self._name


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_process_pipeline_sections", props=["C19"])
def ProcessPipeline_get_process_pipeline_sections(self):
    return self._process_pipeline_sections


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_process_unit_connections", props=["C19"])
def ProcessPipeline_get_process_unit_connections(self):
    return self._process_unit_connections


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_process_units", props=["C19"])
def ProcessPipeline_get_process_units(self):
    return [process_unit for process_section in self.get_process_pipeline_sections() for process_unit in process_section.get_process_units()]


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_events", props=["C19"])
def ProcessPipeline_get_events(self):
    return self._events


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline.get_process_periods", props=["C19"])
def ProcessPipeline_get_process_periods(self):
    return self._process_periods


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline._create_id", props=["C19"])
def ProcessPipeline_create_id(cls):
    return ProcessPipelineId(ecalc_id_generator())


@target("libecalc.process.process_pipeline.process_pipeline.ProcessPipeline._create_process_unit_connections", props=["C19"])
def ProcessPipeline_create_process_unit_connections(process_pipeline_sections):
    process_unit_connections = []
    previous_process_unit = None
    for process_section in process_pipeline_sections:
        for process_unit in process_section.get_process_units():
            if previous_process_unit is not None:
                process_unit_connections.append(ProcessUnitConnection(from_process_unit_id=previous_process_unit.get_id(), to_process_unit_id=process_unit.get_id()))
            previous_process_unit = process_unit
    return process_unit_connections


@target("libecalc.process.process_pipeline.process_unit.ProcessUnit._create_id", props=["C19"])
def ProcessUnit_create_id(cls):
    return ProcessUnitId(ecalc_id_generator())
