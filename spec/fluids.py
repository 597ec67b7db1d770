# Reference equations (parsed by the checker, never executed).
from collections import defaultdict
from libecalc.common.units import Unit, UnitConstants
from libecalc.process.fluid_stream.constants import ComponentProperties, ThermodynamicConstants
from libecalc.process.fluid_stream.exceptions import EmptyStreamListException, IncompatibleEoSModelsException, InvalidFluidCompositionException, NegativeComponentFractionException, NegativeMassRateException, NonPositivePressureException, NonPositiveTemperatureException, ZeroTotalMassRateException
from libecalc.process.fluid_stream.fluid import Fluid
from libecalc.process.fluid_stream.fluid_model import FluidComposition, FluidModel
from libecalc.process.fluid_stream.fluid_property_validation import _default_error_factory, require_positive_finite
from libecalc.process.fluid_stream.fluid_stream import FluidStream
from libecalc.process.fluid_stream.process_conditions import ProcessConditions
PH_ENTHALPY_REL_TOLERANCE = 0.0001
VAPOR_FRACTION_TOLERANCE = 1e-05
PH_ENTHALPY_ABS_TOLERANCE_JOULE_PER_KG = 10.0


@target("libecalc.process.fluid_stream.constants.ThermodynamicConstants", props=["C18"])
class ThermodynamicConstantsValues:
    R_J_PER_MOL_K = 8.31446261815324
    PURE_VAPOR_THRESHOLD = 0.9999
    COMPONENTS = {'water': ComponentProperties(critical_temperature_k=647.3, critical_pressure_bara=221.2, acentric_factor=0.344, molecular_weight_kg_per_mol=0.01801534), 'nitrogen': ComponentProperties(critical_temperature_k=126.2, critical_pressure_bara=33.9, acentric_factor=0.039, molecular_weight_kg_per_mol=0.0280134), 'CO2': ComponentProperties(critical_temperature_k=304.1, critical_pressure_bara=73.8, acentric_factor=0.239, molecular_weight_kg_per_mol=0.04400995), 'methane': ComponentProperties(critical_temperature_k=190.4, critical_pressure_bara=46.0, acentric_factor=0.011, molecular_weight_kg_per_mol=0.01604246), 'ethane': ComponentProperties(critical_temperature_k=305.4, critical_pressure_bara=48.8, acentric_factor=0.099, molecular_weight_kg_per_mol=0.03006904), 'propane': ComponentProperties(critical_temperature_k=369.8, critical_pressure_bara=42.5, acentric_factor=0.153, molecular_weight_kg_per_mol=0.04409562), 'i_butane': ComponentProperties(critical_temperature_k=408.2, critical_pressure_bara=36.5, acentric_factor=0.183, molecular_weight_kg_per_mol=0.0581222), 'n_butane': ComponentProperties(critical_temperature_k=425.2, critical_pressure_bara=38.0, acentric_factor=0.199, molecular_weight_kg_per_mol=0.0581222), 'i_pentane': ComponentProperties(critical_temperature_k=460.4, critical_pressure_bara=33.9, acentric_factor=0.227, molecular_weight_kg_per_mol=0.07214878), 'n_pentane': ComponentProperties(critical_temperature_k=469.7, critical_pressure_bara=33.7, acentric_factor=0.251, molecular_weight_kg_per_mol=0.07214878), 'n_hexane': ComponentProperties(critical_temperature_k=507.5, critical_pressure_bara=30.1, acentric_factor=0.299, molecular_weight_kg_per_mol=0.08617536)}


@target("libecalc.process.fluid_stream.constants.ThermodynamicConstants.get_component_molecular_weight", props=["C18"])
def ThermodynamicConstants_get_component_molecular_weight(cls, component):
    try:
        return cls.COMPONENTS[component].molecular_weight_kg_per_mol
    except KeyError:
        raise ValueError()


@target("libecalc.process.fluid_stream.exceptions.InvalidFluidCompositionException.__init__", props=["C18"])
def InvalidFluidCompositionException_init(self, title=None, reason=None):
    super().__init__(title=f'Invalid fluid composition: {title or ''}', message=reason or '')


@target("libecalc.process.fluid_stream.exceptions.NegativeComponentFractionException.__init__", props=["C18"])
def NegativeComponentFractionException_init(self, component_name, fraction):
    super().__init__(reason=f'Component mole fractions must be non-negative. {component_name} was {fraction} < 0')


@target("libecalc.process.fluid_stream.exceptions.InvalidStreamException.__init__", props=["C18"])
def InvalidStreamException_init(self, title=None, reason=None):
    super().__init__(title=f'Invalid stream condition: {title or ''}', message=reason or '')


@target("libecalc.process.fluid_stream.exceptions.NegativeMassRateException.__init__", props=["C18"])
def NegativeMassRateException_init(self, mass_rate):
    super().__init__(reason=f'Mass rate must be non-negative, got {mass_rate}')


@target("libecalc.process.fluid_stream.exceptions.StreamMixingException.__init__", props=["C18"])
def StreamMixingException_init(self, reason=None):
    super().__init__(title='Invalid stream mixing', reason=reason)


@target("libecalc.process.fluid_stream.exceptions.EmptyStreamListException.__init__", props=["C18"])
def EmptyStreamListException_init(self):
    super().__init__(reason='Cannot mix empty list of streams')


@target("libecalc.process.fluid_stream.exceptions.ZeroTotalMassRateException.__init__", props=["C18"])
def ZeroTotalMassRateException_init(self):
    super().__init__(reason='Total mass rate cannot be zero')


@target("libecalc.process.fluid_stream.exceptions.IncompatibleEoSModelsException.__init__", props=["C18"])
def IncompatibleEoSModelsException_init(self, model1_name, model2_name):
    super().__init__(reason=f'Cannot mix streams with different EoS models: {model1_name} vs {model2_name}')


@target("libecalc.process.fluid_stream.exceptions.IncompatibleThermoSystemProvidersException.__init__", props=["C18"])
def IncompatibleThermoSystemProvidersException_init(self, provider1, provider2):
    super().__init__(reason=f'Cannot mix streams with different thermo system providers: {provider1} vs {provider2}')


@target("libecalc.process.fluid_stream.exceptions.InvalidProcessConditionsException.__init__", props=["C18"])
def InvalidProcessConditionsException_init(self, title=None, reason=None):
    super().__init__(title=f'Invalid process condition: {title or ''}', message=reason or '')


@target("libecalc.process.fluid_stream.exceptions.NonPositiveTemperatureException.__init__", props=["C18"])
def NonPositiveTemperatureException_init(self, parameter_name, temperature_kelvin):
    super().__init__(reason=f'Temperature for {parameter_name} must be positive, got {temperature_kelvin} K')


@target("libecalc.process.fluid_stream.exceptions.NonPositivePressureException.__init__", props=["C18"])
def NonPositivePressureException_init(self, parameter_name, pressure_bara):
    super().__init__(reason=f'Pressure for {parameter_name} must be positive, got {pressure_bara} bara')


@target("libecalc.process.fluid_stream.fluid.Fluid.composition", props=["C18"])
def Fluid_composition(self):
    return self.fluid_model.composition


@target("libecalc.process.fluid_stream.fluid.Fluid.eos_model", props=["C18"])
def Fluid_eos_model(self):
    return self.fluid_model.eos_model


@target("libecalc.process.fluid_stream.fluid.Fluid.temperature_kelvin", props=["C18"])
def Fluid_temperature_kelvin(self):
    return self.properties.temperature_kelvin


@target("libecalc.process.fluid_stream.fluid.Fluid.pressure_bara", props=["C18"])
def Fluid_pressure_bara(self):
    return self.properties.pressure_bara


@target("libecalc.process.fluid_stream.fluid.Fluid.density", props=["C18"])
def Fluid_density(self):
    return self.properties.density


@target("libecalc.process.fluid_stream.fluid.Fluid.enthalpy_joule_per_kg", props=["C18"])
def Fluid_enthalpy_joule_per_kg(self):
    return self.properties.enthalpy_joule_per_kg


@target("libecalc.process.fluid_stream.fluid.Fluid.z", props=["C18"])
def Fluid_z(self):
    return self.properties.z


@target("libecalc.process.fluid_stream.fluid.Fluid.kappa", props=["C18"])
def Fluid_kappa(self):
    return self.properties.kappa


@target("libecalc.process.fluid_stream.fluid.Fluid.molar_mass", props=["C18"])
def Fluid_molar_mass(self):
    return self.properties.molar_mass


@target("libecalc.process.fluid_stream.fluid.Fluid.standard_density_gas_phase_after_flash", props=["C18"])
def Fluid_standard_density_gas_phase_after_flash(self):
    return self.properties.standard_density


@target("libecalc.process.fluid_stream.fluid.Fluid.vapor_fraction_molar", props=["C18"])
def Fluid_vapor_fraction_molar(self):
    return self.properties.vapor_fraction_molar


@target("libecalc.process.fluid_stream.fluid_model.EoSModel", props=["C18"])
class EoSModelValues:
    SRK = 'SRK'
    PR = 'PR'
    GERG_SRK = 'GERG_SRK'
    GERG_PR = 'GERG_PR'


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition", props=["C18"])
class FluidCompositionValues:
    water = 0.0
    nitrogen = 0.0
    CO2 = 0.0
    methane = 0.0
    ethane = 0.0
    propane = 0.0
    i_butane = 0.0
    n_butane = 0.0
    i_pentane = 0.0
    n_pentane = 0.0
    n_hexane = 0.0


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition.__post_init__", props=["C18"])
def FluidComposition_post_init(self):
    for key, val in dataclasses.asdict(self).items():
        if val < 0:
            raise NegativeComponentFractionException(component_name=key, fraction=val)


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition.normalized", props=["C18"])
def FluidComposition_normalized(self):
    data = dataclasses.asdict(self)
    total = sum(data.values())
    if total == 0:
        raise InvalidFluidCompositionException(reason='Total composition is 0; cannot normalize.')
    normalized_data = {key: value / total for key, value in data.items()}
    return FluidComposition(**normalized_data)


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition.from_dict", props=["C18"])
def FluidComposition_from_dict(cls, data):
    valid_fields = {f.name for f in dataclasses.fields(cls)}
    unknown = set(data.keys()) - valid_fields
    if unknown:
        raise InvalidFluidCompositionException(reason=f'Unknown component(s): {sorted(unknown)}. Valid components are: {sorted(valid_fields)}')
    return cls(**data)


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition.items", props=["C18"])
def FluidComposition_items(self):
    return list(dataclasses.asdict(self).items())


@target("libecalc.process.fluid_stream.fluid_model.FluidComposition.molar_mass_mixture", props=["C18"])
def FluidComposition_molar_mass_mixture(self):
    normalized_composition = self.normalized()
    molar_mass = 0.0
    for component, mole_fraction in normalized_composition.items():
        if mole_fraction > 0:
            molar_mass += mole_fraction * ThermodynamicConstants.get_component_molecular_weight(component)
    return molar_mass


@target("libecalc.process.fluid_stream.fluid_properties.FluidProperties.conditions", props=["C18"])
def FluidProperties_conditions(self):
    return ProcessConditions(pressure_bara=self.pressure_bara, temperature_kelvin=self.temperature_kelvin)


@target("libecalc.process.fluid_stream.fluid_property_validation", props=["C18"])
class K33_constants:
    PH_ENTHALPY_REL_TOLERANCE = 0.0001
    PH_ENTHALPY_ABS_TOLERANCE_JOULE_PER_KG = 10.0
    VAPOR_FRACTION_TOLERANCE = 1e-05


@target("libecalc.process.fluid_stream.fluid_property_validation._default_error_factory", props=["C18"])
def f_default_error_factory(message):
    return ValueError(message)


@target("libecalc.process.fluid_stream.fluid_property_validation.require_positive_finite", props=["C18"])
def f_require_positive_finite(value, name, context, error_factory=_default_error_factory):
    if not math.isfinite(value) or value <= 0:
        raise error_factory(f'{context}: expected finite positive {name}, got {value}.')


@target("libecalc.process.fluid_stream.fluid_property_validation.validate_ph_flash_result", props=["C18"])
def f_validate_ph_flash_result(properties, target_enthalpy_joule_per_kg, context, error_factory=_default_error_factory):
    require_positive_finite(properties.pressure_bara, 'pressure_bara', context, error_factory)
    require_positive_finite(properties.temperature_kelvin, 'temperature_kelvin', context, error_factory)
    require_positive_finite(properties.density, 'density', context, error_factory)
    require_positive_finite(properties.z, 'z', context, error_factory)
    require_positive_finite(properties.kappa, 'kappa', context, error_factory)
    require_positive_finite(properties.standard_density, 'standard_density', context, error_factory)
    if not math.isfinite(properties.vapor_fraction_molar) or not -VAPOR_FRACTION_TOLERANCE <= properties.vapor_fraction_molar <= 1 + VAPOR_FRACTION_TOLERANCE:
        raise error_factory(f'{context}: expected finite vapor_fraction_molar in [0, 1], got {properties.vapor_fraction_molar}.')
    if not math.isfinite(properties.enthalpy_joule_per_kg):
        raise error_factory(f'{context}: expected finite enthalpy_joule_per_kg, got {properties.enthalpy_joule_per_kg}.')
    if not math.isfinite(target_enthalpy_joule_per_kg):
        raise error_factory(f'{context}: expected finite target_enthalpy_joule_per_kg, got {target_enthalpy_joule_per_kg}.')
    enthalpy_error = abs(properties.enthalpy_joule_per_kg - target_enthalpy_joule_per_kg)
    enthalpy_tolerance = max(PH_ENTHALPY_ABS_TOLERANCE_JOULE_PER_KG, abs(target_enthalpy_joule_per_kg) * PH_ENTHALPY_REL_TOLERANCE)
    if enthalpy_error > enthalpy_tolerance:
        raise error_factory(f'{context}: PH flash did not satisfy target enthalpy. target={target_enthalpy_joule_per_kg}, result={properties.enthalpy_joule_per_kg}, error={enthalpy_error}, tolerance={enthalpy_tolerance}.')


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.__post_init__", props=["C18"])
def FluidStream_post_init(self):
    if self.mass_rate_kg_per_h < 0:
        raise NegativeMassRateException(self.mass_rate_kg_per_h)


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.fluid_model", props=["C18"])
def FluidStream_fluid_model(self):
    return self.fluid.fluid_model


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.fluid_properties", props=["C18"])
def FluidStream_fluid_properties(self):
    return self.fluid.properties


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.composition", props=["C18"])
def FluidStream_composition(self):
    return self.fluid.composition


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.conditions", props=["C18"])
def FluidStream_conditions(self):
    return self.fluid.properties.conditions


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.temperature_kelvin", props=["C18"])
def FluidStream_temperature_kelvin(self):
    return self.fluid.temperature_kelvin


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.pressure_bara", props=["C18"])
def FluidStream_pressure_bara(self):
    return self.fluid.pressure_bara


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.density", props=["C18"])
def FluidStream_density(self):
    return self.fluid.density


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.molar_mass", props=["C18"])
def FluidStream_molar_mass(self):
    return self.fluid.molar_mass


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.standard_density_gas_phase_after_flash", props=["C18"])
def FluidStream_standard_density_gas_phase_after_flash(self):
    return self.fluid.standard_density_gas_phase_after_flash


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.enthalpy_joule_per_kg", props=["C18"])
def FluidStream_enthalpy_joule_per_kg(self):
    return self.fluid.enthalpy_joule_per_kg


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.z", props=["C18"])
def FluidStream_z(self):
    return self.fluid.z


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.kappa", props=["C18"])
def FluidStream_kappa(self):
    return self.fluid.kappa


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.vapor_fraction_molar", props=["C18"])
def FluidStream_vapor_fraction_molar(self):
    return self.fluid.vapor_fraction_molar


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.volumetric_rate_m3_per_hour", props=["C18"])
def FluidStream_volumetric_rate_m3_per_hour(self):
    return self.mass_rate_kg_per_h / self.density


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.standard_rate_sm3_per_day", props=["C18"])
def FluidStream_standard_rate_sm3_per_day(self):
    return self.mass_rate_kg_per_h / self.standard_density_gas_phase_after_flash * UnitConstants.HOURS_PER_DAY


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.with_mass_rate", props=["C18"])
def FluidStream_with_mass_rate(self, mass_rate_kg_per_h):
    return dataclasses.replace(self, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.with_standard_rate", props=["C18"])
def FluidStream_with_standard_rate(self, standard_rate_sm3_per_day):
    from libecalc.common.units import UnitConstants
    mass_rate_kg_per_h = standard_rate_sm3_per_day * self.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
    return dataclasses.replace(self, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.with_new_fluid", props=["C18"])
def FluidStream_with_new_fluid(self, fluid):
    return dataclasses.replace(self, fluid=fluid)


@target("libecalc.process.fluid_stream.fluid_stream.FluidStream.from_standard_rate", props=["C18"])
def FluidStream_from_standard_rate(cls, standard_rate_m3_per_day, fluid_model, fluid_properties):
    fluid = Fluid(fluid_model=fluid_model, properties=fluid_properties)
    mass_rate_kg_per_h = standard_rate_m3_per_day * fluid.standard_density_gas_phase_after_flash / UnitConstants.HOURS_PER_DAY
    return cls(fluid=fluid, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.__post_init__", props=["C18"])
def ProcessConditions_post_init(self):
    if self.temperature_kelvin <= 0:
        raise NonPositiveTemperatureException(parameter_name='temperature in Kelvin', temperature_kelvin=self.temperature_kelvin)
    if self.pressure_bara <= 0:
        raise NonPositivePressureException(parameter_name='pressure in BarA', pressure_bara=self.pressure_bara)


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.temperature_celsius", props=["C18"])
def ProcessConditions_temperature_celsius(self):
    return Unit.KELVIN.to(Unit.CELSIUS)(self.temperature_kelvin)


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.pressure_pascal", props=["C18"])
def ProcessConditions_pressure_pascal(self):
    return Unit.BARA.to(Unit.PASCAL)(self.pressure_bara)


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.pressure_atm", props=["C18"])
def ProcessConditions_pressure_atm(self):
    return self.pressure_bara / UnitConstants.STANDARD_PRESSURE_BARA


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.from_celsius", props=["C18"])
def ProcessConditions_from_celsius(cls, temperature_celsius, pressure_bara):
    return cls(temperature_kelvin=Unit.CELSIUS.to(Unit.KELVIN)(temperature_celsius), pressure_bara=pressure_bara)


@target("libecalc.process.fluid_stream.process_conditions.ProcessConditions.standard_conditions", props=["C18"])
def ProcessConditions_standard_conditions(cls):
    return cls(temperature_kelvin=UnitConstants.STANDARD_TEMPERATURE_KELVIN, pressure_bara=UnitConstants.STANDARD_PRESSURE_BARA)


@target("libecalc.process.fluid_stream.stream_mixer.StreamMixer.__init__", props=["C18"])
def StreamMixer_init(self, fluid_service):
    self._fluid_service = fluid_service


@target("libecalc.process.fluid_stream.stream_mixer.StreamMixer.mix_streams", props=["C18"])
def StreamMixer_mix_streams(self, streams):
    if not streams:
        raise EmptyStreamListException()
    total_mass_rate = sum((s.mass_rate_kg_per_h for s in streams))
    if total_mass_rate == 0:
        raise ZeroTotalMassRateException()
    reference_eos_model = streams[0].fluid_model.eos_model
    for s in streams[1:]:
        if s.fluid_model.eos_model != reference_eos_model:
            raise IncompatibleEoSModelsException(reference_eos_model, s.fluid_model.eos_model)
    outlet_pressure = min((s.pressure_bara for s in streams))
    temperature_guess = sum((s.mass_rate_kg_per_h * s.temperature_kelvin for s in streams)) / total_mass_rate
    outlet_enthalpy_joule_per_kg = sum((s.mass_rate_kg_per_h * s.enthalpy_joule_per_kg for s in streams)) / total_mass_rate
    stream_total_molar_rates = [s.mass_rate_kg_per_h / s.molar_mass for s in streams]
    mix_total_molar_rate = sum(stream_total_molar_rates)
    mix_component_molar_rate_dict = defaultdict(float)
    for s, total_molar_rate in zip(streams, stream_total_molar_rates):
        normalized_comp = s.fluid_model.composition.normalized()
        for component, mole_fraction in dataclasses.asdict(normalized_comp).items():
            mix_component_molar_rate_dict[component] += total_molar_rate * mole_fraction
    mix_composition_dict = {comp: m_rate / mix_total_molar_rate for comp, m_rate in mix_component_molar_rate_dict.items()}
    mix_composition = FluidComposition(**mix_composition_dict).normalized()
    mix_fluid_model = FluidModel(composition=mix_composition, eos_model=reference_eos_model)
    mix_props = self._fluid_service.flash_ph(fluid_model=mix_fluid_model, pressure_bara=outlet_pressure, target_enthalpy_joule_per_kg=outlet_enthalpy_joule_per_kg, temperature_guess_kelvin=temperature_guess)
    mix_fluid = Fluid(fluid_model=mix_fluid_model, properties=mix_props)
    return FluidStream(fluid=mix_fluid, mass_rate_kg_per_h=total_mass_rate)
