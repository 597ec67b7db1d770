# Reference equations (parsed by the checker, never executed).
from collections import OrderedDict, defaultdict
from ecalc_neqsim_wrapper.cache_service import CacheConfig, CacheName, CacheService, LRUCache
from ecalc_neqsim_wrapper.exceptions import NeqsimComponentError, NeqsimFlashCalculationError, NeqsimPhaseError
from ecalc_neqsim_wrapper.fluid_service import _make_composition_key
from ecalc_neqsim_wrapper.java_service import NeqsimJPypeService, NeqsimPy4JService, NeqsimService, Py4JConfig, _start_server
from ecalc_neqsim_wrapper.mappings import NeqsimComposition, map_fluid_composition_from_neqsim, map_fluid_composition_to_neqsim
from ecalc_neqsim_wrapper.thermo import GERG2008FluidProperties, NeqsimFluid, NeqsimFluidComponent, NeqsimFluidProperty, NeqsimFluidState, _get_enthalpy_joule_for_GERG2008_joule_per_kg, get_GERG2008_properties
from jpype import JException
from libecalc.common.errors.exceptions import EcalcError, ProgrammingError
from libecalc.process.fluid_stream.constants import ThermodynamicConstants
from libecalc.process.fluid_stream.fluid import Fluid
from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel
from libecalc.process.fluid_stream.fluid_properties import FluidProperties
from libecalc.process.fluid_stream.fluid_property_validation import validate_ph_flash_result
from libecalc.process.fluid_stream.fluid_stream import FluidStream
from os import path
from py4j.protocol import Py4JError
from typing import assert_never
_COMPOSITION_DECIMALS = 8
_STANDARD_PRESSURE_BARA = 1.01325
_STANDARD_TEMPERATURE_KELVIN = 288.15
_PRESSURE_DECIMALS = 6
_TEMPERATURE_DECIMALS = 6
_ENTHALPY_DECIMALS = 6
COMPONENTS = ['methane', 'ethane', 'Cl-', 'Na+', 'Mg++', 'MDEA', 'MDEA+', 'H3O+', 'propane', 'CO2', 'methanol', 'MEG', 'oxygen', 'TEG', 'DEG', 'nitrogen', 'n-butane', 'HCO3-', 'Li+', 'K+', 'Ca++', 'I-', 'Sr++', 'Ba++', 'OH-', 'CO3--', 'NH4+', 'Br-', 'n-pentane', 'n-hexane', 'benzene', 'toluene', 'n-heptane', 'n-octane', 'nC10', 'n-nonane', 'hydrogen', 'argon', 'i-butane', 'c-propane', 'Cs+', 'Rb+', 'ice', 'nC11', 'nC12', 'nC13', 'nC14', 'nC15', 'nC16', 'nC17', 'nC18', 'nC19', 'nC20', 'nC21', 'nC22', 'nC23', 'nC24', '22-dim-C3', '22-dim-C4', '23-dim-C4', '2-m-C5', '3-m-C5', 'c-C5', 'default', 'Piperazine', 'Piperazine+', 'PZCOO-', 'H+PZCOO-', '-OOCPZCOO-', 'c-hexane', '22-DM-C5', 'M-cy-C5', '24-DM-C5', '223-TM-C4', '33-DM-C5', '2-M-C6', '23-DM-C5', '11-DM-cy-C5', '3-M-C6', 'cis-13-DM-cy-C5', 'trans-13-DM-cy-C5', 'trans-12-DM-cy-C5', '224-TM-C5', '113-TM-cy-C5', '22-DM-C6', 'E-cy-C5', '25-DM-C6', '24-DM-C6', 'cis-13-DM-cy-C6', '3-M-C7', '3-E-C6', 'ethylbenzene', 'm-Xylene', 'p-Xylene', 'o-Xylene', '2-M-C8', 'ethylcyclohexane', 'i-pentane', 'H2S', 'S8', 'AceticAcid', 'Ac-', 'neon', 'acetone', 'HS-', 'S--', 'ethanol', 'DEA', 'DEA+', 'DEACOO-', 'Piperazine++', 'CaCO3', 'water', 'F-', 'Fe++', 'Rb+', 'Pb++', 'NO3-', 'ClO4-', 'SO4--', 'helium', 'c-C7', 'c-C8', 'CO', 'methanolPVTsim', 'MEGPVTsim18', 'MEGPVTsim19', 'propanePVTsim', 'ethanolPVTsim', 'nbutanePVTsim', 'mercury', 'propylbenzene', 'NaCl', 'CaCl2', 'SF6', 'R12', 'R134a', 'COS', '2-M-C7', 'M-cy-C6', 'i-p-cy-C5', 'cis-12-DM-cy-C6', '234-TM-C5', '1,2-DM-cyC5', '1,3-dDM-cyC5', '1,cis-2,trans-4-TMcyC5', '2,3-DM-C6', '3-M-C8', '2,2-DM-C7', '2,6-DM-C7', '1,1,3-TM-cy-C6', '1,2,3-TMcyC6', '4-M-C8', 'o-E-toluene', '1,2,3-TM-Benzene', 'cy-C9', '2-E-p-xylene', 'nC5-Benzene', 'nC6-Benzene', 'nC7-Benzene', 'nC10-cy-C5', 'nC8-Benzene', 'nC9-Benzene', '3-M-4,4-DE-heptane', 'nC12-cy-C5', 'nC10-Benzene', 'nC14-cy-C5', 'nC17-cy-C5', 'nC27', 'nC34', 'nC39', '1,2,4-TMcyC6', 'nC30', '1-propanol', 'i-propanol', 'c-C4', '33-DM-C6', 'n-Bcychexane', 'Pent-CC6', 'nC25', 'nC26', 'nC28', 'nC29', 'Hg++', 'glycerol', 'sulfur(S8)', 'seawater', 'naphthalene', 'MEA', 'trans-12-DM-cy-C6', 'cis-14-DM-cy-C6', 'trans-14-DM-cy-C6', 'PG']
NEQSIM_MIXING_RULE = 2
STANDARD_PRESSURE_BARA = 1.01325
STANDARD_TEMPERATURE_KELVIN = 288.15
JAVA_ERRORS = (Py4JError, JException)
_map_fluid_component_to_neqsim = {'water': 'water', 'nitrogen': 'nitrogen', 'CO2': 'CO2', 'methane': 'methane', 'ethane': 'ethane', 'propane': 'propane', 'i_butane': 'i-butane', 'n_butane': 'n-butane', 'i_pentane': 'i-pentane', 'n_pentane': 'n-pentane', 'n_hexane': 'n-hexane'}


@target("ecalc_neqsim_wrapper.cache_service.CacheName", props=["C16"])
class CacheNameValues:
    REFERENCE_FLUID = 'reference_fluid'
    FLUID_SERVICE_FLASH = 'fluid_service_flash'


@target("ecalc_neqsim_wrapper.cache_service.CacheConfig", props=["C16"])
class CacheConfigValues:
    reference_fluid_max_size = 512
    flash_max_size = 100000


@target("ecalc_neqsim_wrapper.cache_service.CacheConfig.default", props=["C16"])
def CacheConfig_default(cls):
    return cls()


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.__init__", props=["C16"])
def LRUCache_init(self, max_size=10000):
    self._cache = OrderedDict()
    self._max_size = max_size
    self._lock = threading.RLock()
    self._stats = {'hits': 0, 'misses': 0, 'evictions': 0}


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.get", props=["C16"])
def LRUCache_get(self, key):
    with self._lock:
        if key in self._cache:
            self._cache.move_to_end(key)
            self._stats['hits'] += 1
            return self._cache[key]
        self._stats['misses'] += 1
        return None


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.put", props=["C16"])
def LRUCache_put(self, key, value):
    with self._lock:
        if self._max_size == 0:
            return
        if key in self._cache:
            self._cache.move_to_end(key)
        self._cache[key] = value
        while len(self._cache) > self._max_size:
            self._cache.popitem(last=False)
            self._stats['evictions'] += 1


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.clear", props=["C16"])
def LRUCache_clear(self):
    with self._lock:
        self._cache.clear()
        self._stats = {'hits': 0, 'misses': 0, 'evictions': 0}


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.get_stats", props=["C16"])
def LRUCache_get_stats(self):
    with self._lock:
        total = self._stats['hits'] + self._stats['misses']
        hit_rate = self._stats['hits'] / total * 100 if total > 0 else 0
        return {**self._stats, 'size': len(self._cache), 'max_size': self._max_size, 'hit_rate_percent': round(hit_rate, 1)}


@target("ecalc_neqsim_wrapper.cache_service.LRUCache.__len__", props=["C16"])
def LRUCache_len(self):
    with self._lock:
        return len(self._cache)


@target("ecalc_neqsim_wrapper.cache_service.CacheService", props=["C16"])
class CacheServiceValues:
    _caches = {}


@target("ecalc_neqsim_wrapper.cache_service.CacheService.create_cache", props=["C16"])
def CacheService_create_cache(cls, name, max_size=10000):
    with cls._lock:
        if name in cls._caches:
            existing = cls._caches[name]
            if existing._max_size != max_size:
                _logger.warning(f"Cache '{name}' already exists with max_size={existing._max_size}, ignoring requested max_size={max_size}. Configure cache sizes before first use.")
            else:
                _logger.debug(f"Returning existing cache '{name}' (max_size={existing._max_size})")
            return existing
        cache = LRUCache(max_size)
        cls._caches[name] = cache
        return cache


@target("ecalc_neqsim_wrapper.cache_service.CacheService.get_cache", props=["C16"])
def CacheService_get_cache(cls, name):
    with cls._lock:
        return cls._caches.get(name)


@target("ecalc_neqsim_wrapper.cache_service.CacheService.clear_all", props=["C16"])
def CacheService_clear_all(cls):
    with cls._lock:
        for cache in cls._caches.values():
            cache.clear()


@target("ecalc_neqsim_wrapper.cache_service.CacheService.clear_cache", props=["C16"])
def CacheService_clear_cache(cls, name):
    with cls._lock:
        if name in cls._caches:
            cls._caches[name].clear()


@target("ecalc_neqsim_wrapper.cache_service.CacheService.get_all_stats", props=["C16"])
def CacheService_get_all_stats(cls):
    with cls._lock:
        return {name: cache.get_stats() for name, cache in cls._caches.items()}


@target("ecalc_neqsim_wrapper.fluid_service", props=["C16", "C17"])
class K15_constants:
    _PRESSURE_DECIMALS = 6
    _TEMPERATURE_DECIMALS = 6
    _ENTHALPY_DECIMALS = 6
    _COMPOSITION_DECIMALS = 8
    _STANDARD_TEMPERATURE_KELVIN = 288.15
    _STANDARD_PRESSURE_BARA = 1.01325


@target("ecalc_neqsim_wrapper.fluid_service._make_composition_key", props=["C16", "C17"])
def f_make_composition_key(composition):
    return tuple(((k, round(v, _COMPOSITION_DECIMALS)) for k, v in sorted(dataclasses.asdict(composition).items())))


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService", props=["C16", "C17"])
class NeqSimFluidServiceValues:
    _instance = None
    _cache_config = None


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.__new__", props=["C16", "C17"])
def NeqSimFluidService_new(cls):
    if cls._instance is None:
        cls._instance = super().__new__(cls)
    return cls._instance


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.configure", props=["C16", "C17"])
def NeqSimFluidService_configure(cls, cache_config):
    if cls._instance is not None:
        raise RuntimeError()
    cls._cache_config = cache_config


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.__init__", props=["C16", "C17"])
def NeqSimFluidService_init(self):
    if hasattr(self, '_initialized'):
        return
    self._initialized = True
    if self._cache_config is not None:
        config = self._cache_config
        _logger.info(f'NeqSimFluidService initialized with custom cache config: reference_fluid_max_size={config.reference_fluid_max_size}, flash_max_size={config.flash_max_size}')
    else:
        config = CacheConfig.default()
        _logger.info(f'NeqSimFluidService initialized with default cache config: reference_fluid_max_size={config.reference_fluid_max_size}, flash_max_size={config.flash_max_size}')
    self._reference_cache = CacheService.create_cache(CacheName.REFERENCE_FLUID, max_size=config.reference_fluid_max_size)
    self._flash_cache = CacheService.create_cache(CacheName.FLUID_SERVICE_FLASH, max_size=config.flash_max_size)


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.instance", props=["C16", "C17"])
def NeqSimFluidService_instance(cls):
    if cls._instance is None:
        cls._instance = cls()
    return cls._instance


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.reset_instance", props=["C16", "C17"])
def NeqSimFluidService_reset_instance(cls):
    cls._instance = None
    cls._cache_config = None


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService._get_reference_fluid", props=["C16", "C17"])
def NeqSimFluidService_get_reference_fluid(self, fluid_model):
    composition = fluid_model.composition.normalized()
    key = (_make_composition_key(composition), fluid_model.eos_model)
    cached = self._reference_cache.get(key)
    if cached is not None:
        return cached
    ref = NeqsimFluid.create_thermo_system(composition=composition, temperature_kelvin=_STANDARD_TEMPERATURE_KELVIN, pressure_bara=_STANDARD_PRESSURE_BARA, eos_model=fluid_model.eos_model)
    self._reference_cache.put(key, ref)
    return ref


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService._make_pt_cache_key", props=["C16", "C17"])
def NeqSimFluidService_make_pt_cache_key(self, composition_key, eos_model, pressure, temperature):
    return ('TP', composition_key, eos_model, round(pressure, _PRESSURE_DECIMALS), round(temperature, _TEMPERATURE_DECIMALS))


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService._make_ph_cache_key", props=["C16", "C17"])
def NeqSimFluidService_make_ph_cache_key(self, composition_key, eos_model, pressure, target_enthalpy_joule_per_kg):
    return ('PH', composition_key, eos_model, round(pressure, _PRESSURE_DECIMALS), round(target_enthalpy_joule_per_kg, _ENTHALPY_DECIMALS))


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService._get_standard_density", props=["C16", "C17"])
def NeqSimFluidService_get_standard_density(self, fluid_model):
    ref = self._get_reference_fluid(fluid_model)
    if ref.vapor_fraction_molar >= ThermodynamicConstants.PURE_VAPOR_THRESHOLD:
        return ref.density
    gas_only = ref.clone_gas_phase()
    return gas_only.density


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService._extract_properties", props=["C16", "C17"])
def NeqSimFluidService_extract_properties(self, neqsim_fluid, fluid_model):
    return FluidProperties(temperature_kelvin=neqsim_fluid.temperature_kelvin, pressure_bara=neqsim_fluid.pressure_bara, density=neqsim_fluid.density, enthalpy_joule_per_kg=neqsim_fluid.enthalpy_joule_per_kg, z=neqsim_fluid.z, kappa=neqsim_fluid.kappa, vapor_fraction_molar=neqsim_fluid.vapor_fraction_molar, molar_mass=fluid_model.composition.molar_mass_mixture, standard_density=self._get_standard_density(fluid_model))


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.flash_pt", props=["C16", "C17"])
def NeqSimFluidService_flash_pt(self, fluid_model, pressure_bara, temperature_kelvin):
    composition = fluid_model.composition.normalized()
    composition_key = _make_composition_key(composition)
    cache_key = self._make_pt_cache_key(composition_key, fluid_model.eos_model, pressure_bara, temperature_kelvin)
    cached = self._flash_cache.get(cache_key)
    if cached is not None:
        return cached
    ref = self._get_reference_fluid(fluid_model)
    flashed = ref.set_new_pressure_and_temperature(new_pressure_bara=pressure_bara, new_temperature_kelvin=temperature_kelvin)
    result = self._extract_properties(flashed, fluid_model)
    self._flash_cache.put(cache_key, result)
    return result


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.flash_ph", props=["C16", "C17"])
def NeqSimFluidService_flash_ph(self, fluid_model, pressure_bara, target_enthalpy_joule_per_kg, temperature_guess_kelvin=None):
    composition = fluid_model.composition.normalized()
    composition_key = _make_composition_key(composition)
    cache_key = self._make_ph_cache_key(composition_key, fluid_model.eos_model, pressure_bara, target_enthalpy_joule_per_kg)
    cached = self._flash_cache.get(cache_key)
    if cached is not None:
        return cached
    ref = self._get_reference_fluid(fluid_model)
    if temperature_guess_kelvin is not None:
        seeded_fluid = ref.set_new_pressure_and_temperature(new_pressure_bara=pressure_bara, new_temperature_kelvin=temperature_guess_kelvin)
        flashed = seeded_fluid.set_new_pressure_and_enthalpy(new_pressure=pressure_bara, new_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg)
    else:
        flashed = ref.set_new_pressure_and_enthalpy(new_pressure=pressure_bara, new_enthalpy_joule_per_kg=target_enthalpy_joule_per_kg)
    result = self._extract_properties(flashed, fluid_model)
    validate_ph_flash_result(result, target_enthalpy_joule_per_kg, 'NeqSimFluidService.flash_ph', error_factory=NeqsimFlashCalculationError)
    self._flash_cache.put(cache_key, result)
    return result


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.remove_liquid", props=["C16", "C17"])
def NeqSimFluidService_remove_liquid(self, fluid):
    if fluid.vapor_fraction_molar >= ThermodynamicConstants.PURE_VAPOR_THRESHOLD:
        return fluid
    ref = self._get_reference_fluid(fluid.fluid_model)
    flashed = ref.set_new_pressure_and_temperature(new_pressure_bara=fluid.pressure_bara, new_temperature_kelvin=fluid.temperature_kelvin)
    gas_only = flashed.clone_gas_phase()
    gas_composition = gas_only.composition
    new_fluid_model = FluidModel(composition=gas_composition, eos_model=fluid.fluid_model.eos_model)
    props = self._extract_properties(gas_only, new_fluid_model)
    return Fluid(fluid_model=new_fluid_model, properties=props)


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.create_fluid", props=["C16", "C17"])
def NeqSimFluidService_create_fluid(self, fluid_model, pressure_bara, temperature_kelvin):
    props = self.flash_pt(fluid_model, pressure_bara, temperature_kelvin)
    return Fluid(fluid_model=fluid_model, properties=props)


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.create_stream_from_standard_rate", props=["C16", "C17"])
def NeqSimFluidService_create_stream_from_standard_rate(self, fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day):
    fluid = self.create_fluid(fluid_model, pressure_bara, temperature_kelvin)
    mass_rate = float(self.standard_rate_to_mass_rate(fluid_model, standard_rate_m3_per_day))
    return FluidStream(fluid=fluid, mass_rate_kg_per_h=mass_rate)


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.create_stream_from_mass_rate", props=["C16", "C17"])
def NeqSimFluidService_create_stream_from_mass_rate(self, fluid_model, pressure_bara, temperature_kelvin, mass_rate_kg_per_h):
    fluid = self.create_fluid(fluid_model, pressure_bara, temperature_kelvin)
    return FluidStream(fluid=fluid, mass_rate_kg_per_h=mass_rate_kg_per_h)


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.standard_rate_to_mass_rate", props=["C16", "C17"])
def NeqSimFluidService_standard_rate_to_mass_rate(self, fluid_model, standard_rate_m3_per_day):
    standard_density = self._get_standard_density(fluid_model)
    return standard_rate_m3_per_day * standard_density / 24.0


@target("ecalc_neqsim_wrapper.fluid_service.NeqSimFluidService.mass_rate_to_standard_rate", props=["C16", "C17"])
def NeqSimFluidService_mass_rate_to_standard_rate(self, fluid_model, mass_rate_kg_per_h):
    standard_density = self._get_standard_density(fluid_model)
    return mass_rate_kg_per_h * 24.0 / standard_density


@target("ecalc_neqsim_wrapper.fluid_service.get_fluid_service_stats", props=["C16", "C17"])
def f_get_fluid_service_stats():
    ref_cache = CacheService.get_cache(CacheName.REFERENCE_FLUID)
    flash_cache = CacheService.get_cache(CacheName.FLUID_SERVICE_FLASH)
    return {CacheName.REFERENCE_FLUID.value: ref_cache.get_stats() if ref_cache else {}, CacheName.FLUID_SERVICE_FLASH.value: flash_cache.get_stats() if flash_cache else {}}


@target("ecalc_neqsim_wrapper.thermo", props=["C17"])
class K37_constants:
    STANDARD_TEMPERATURE_KELVIN = 288.15
    STANDARD_PRESSURE_BARA = 1.01325
    NEQSIM_MIXING_RULE = 2


@target("ecalc_neqsim_wrapper.thermo.ThermodynamicSystem.clone", props=["C17"])
def ThermodynamicSystem_clone(self):
    ...


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.__init__", props=["C17"])
def NeqsimFluid_init(self, thermodynamic_system, use_gerg):
    self._thermodynamic_system = thermodynamic_system
    self._use_gerg = use_gerg
    self._gerg_properties = get_GERG2008_properties(thermodynamic_system=thermodynamic_system) if self._use_gerg else None


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.json", props=["C17"], modular=True)
def NeqsimFluid_json(self):
    fluid_composition = []
    fluid_properties = []
    try:
        for string_vector in self._thermodynamic_system.createTable('ECALC_DUMP'):
            if ''.join(string_vector).strip() == '' or string_vector[1] == 'total':
                continue
            if str(string_vector[0]).strip() in COMPONENTS:
                fluid_composition.append(NeqsimFluidComponent(name=string_vector[0], total_fraction=string_vector[1], gas_fraction=string_vector[2], unit=string_vector[6]))
            else:
                fluid_properties.append(NeqsimFluidProperty(name=string_vector[0], value=string_vector[2], unit=string_vector[6]))
        neqsim_fluid_state = NeqsimFluidState(fluid_composition=fluid_composition, fluid_properties=fluid_properties)
        return neqsim_fluid_state.model_dump_json()
    except Exception as e:
        pass
    return ''


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.create_thermo_system", props=["C17"], modular=True)
def NeqsimFluid_create_thermo_system(cls, composition, temperature_kelvin=STANDARD_TEMPERATURE_KELVIN, pressure_bara=STANDARD_PRESSURE_BARA, eos_model=EoSModel.SRK, mixing_rule=NEQSIM_MIXING_RULE):
    use_gerg = 'gerg' in eos_model.name.lower()
    composition = map_fluid_composition_to_neqsim(fluid_composition=composition)
    non_existing_components = [component for component, value in composition.items() if component not in COMPONENTS and value > 0.0]
    if non_existing_components:
        raise ValueError()
    components, molar_fractions = zip(*composition.items())
    thermodynamic_system = cls._init_thermo_system(components=components, molar_fraction=molar_fractions, eos_model_type=eos_model, temperature_kelvin=temperature_kelvin, pressure_bara=pressure_bara, mixing_rule=mixing_rule)
    return cls(thermodynamic_system=thermodynamic_system, use_gerg=use_gerg)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid._get_eos_model", props=["C17"])
def NeqsimFluid_get_eos_model(eos_model_type):
    neqsim_module = NeqsimService.instance().get_neqsim_module()
    if eos_model_type == EoSModel.SRK:
        return neqsim_module.thermo.system.SystemSrkEos
    elif eos_model_type == EoSModel.PR:
        return neqsim_module.thermo.system.SystemPrEos
    elif eos_model_type == EoSModel.GERG_SRK:
        return neqsim_module.thermo.system.SystemSrkEos
    elif eos_model_type == EoSModel.GERG_PR:
        return neqsim_module.thermo.system.SystemPrEos
    else:
        assert_never(eos_model_type)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid._init_thermo_system", props=["C17"])
def NeqsimFluid_init_thermo_system(cls, components, molar_fraction, eos_model_type, temperature_kelvin, pressure_bara, mixing_rule):
    use_gerg = 'gerg' in eos_model_type.name.lower()
    eos_model = cls._get_eos_model(eos_model_type)
    thermodynamic_system = eos_model(float(temperature_kelvin), float(pressure_bara))
    [thermodynamic_system.addComponent(component, float(value)) for component, value in zip(components, molar_fraction) if value > 0.0]
    thermodynamic_system.setTotalFlowRate(float(1000), 'kg/hr')
    thermodynamic_system.setMixingRule(mixing_rule)
    thermodynamic_system = cls._tp_flash(thermodynamic_system=thermodynamic_system, use_gerg=use_gerg)
    return thermodynamic_system


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.volume", props=["C17"])
def NeqsimFluid_volume(self):
    if self._use_gerg:
        raise NotImplementedError
    return self._thermodynamic_system.getVolume()


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.density", props=["C17"])
def NeqsimFluid_density(self):
    if self._use_gerg:
        return self._gerg_properties.density_kg_per_m3
    else:
        return self._thermodynamic_system.getDensity('kg/m3')


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.molar_mass", props=["C17"])
def NeqsimFluid_molar_mass(self):
    return self._thermodynamic_system.getMolarMass()


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.z", props=["C17"])
def NeqsimFluid_z(self):
    if self._use_gerg:
        return self._gerg_properties.z
    else:
        return self._thermodynamic_system.getZ()


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.enthalpy_joule_per_kg", props=["C17"])
def NeqsimFluid_enthalpy_joule_per_kg(self):
    if self._use_gerg:
        return self._gerg_properties.enthalpy_joule_per_kg
    else:
        return self._thermodynamic_system.getEnthalpy('J/kg')


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.kappa", props=["C17"])
def NeqsimFluid_kappa(self):
    if self._use_gerg:
        return self._gerg_properties.kappa
    else:
        return self._thermodynamic_system.getGamma2()


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.temperature_kelvin", props=["C17"])
def NeqsimFluid_temperature_kelvin(self):
    return self._thermodynamic_system.getTemperature('K')


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.pressure_bara", props=["C17"])
def NeqsimFluid_pressure_bara(self):
    return self._thermodynamic_system.getPressure('bara')


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.composition", props=["C17"], modular=True)
def NeqsimFluid_composition(self):
    molar_composition = self._thermodynamic_system.getMolarComposition()
    component_names = self._thermodynamic_system.getComponentNames()
    composition_dict = {}
    for i, name in enumerate(component_names):
        component_name = str(name)
        if component_name not in COMPONENTS:
            raise NeqsimComponentError(component_name)
        composition_dict[component_name] = molar_composition[i]
    neqsim_composition = NeqsimComposition.model_validate(composition_dict)
    ecalc_composition = map_fluid_composition_from_neqsim(neqsim_composition).normalized()
    return ecalc_composition


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.vapor_fraction_molar", props=["C17"])
def NeqsimFluid_vapor_fraction_molar(self):
    if self._thermodynamic_system.hasPhaseType('gas'):
        phaseNumber = self._thermodynamic_system.getPhaseNumberOfPhase('gas')
        gasFraction = self._thermodynamic_system.getMoleFraction(phaseNumber)
        return gasFraction
    else:
        return 0.0


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid._tp_flash", props=["C17"])
def NeqsimFluid_tp_flash(thermodynamic_system, use_gerg):
    thermodynamic_operations = NeqsimService.instance().get_neqsim_module().thermodynamicoperations.ThermodynamicOperations(thermodynamic_system)
    thermodynamic_operations.TPflash()
    thermodynamic_system.init(3)
    thermodynamic_system.initProperties()
    return thermodynamic_system


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid._ph_flash", props=["C17"])
def NeqsimFluid_ph_flash(thermodynamic_system, use_gerg, enthalpy):
    thermodynamic_operations = NeqsimService.instance().get_neqsim_module().thermodynamicoperations.ThermodynamicOperations(thermodynamic_system)
    if use_gerg:
        enthalpy_joule = _get_enthalpy_joule_for_GERG2008_joule_per_kg(enthalpy=enthalpy, thermodynamic_system=thermodynamic_system)
        thermodynamic_operations.PHflashGERG2008(float(enthalpy_joule))
    else:
        thermodynamic_operations.PHflash(float(enthalpy), 'J/kg')
    thermodynamic_system.init(3)
    thermodynamic_system.initProperties()
    return thermodynamic_system


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid._remove_liquid", props=["C17"])
def NeqsimFluid_remove_liquid(thermodynamic_system, use_gerg):
    gas_only_system = thermodynamic_system.clone().phaseToSystem('gas')
    gas_only_system = NeqsimFluid._tp_flash(thermodynamic_system=gas_only_system, use_gerg=use_gerg)
    return gas_only_system


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.clone_gas_phase", props=["C17"])
def NeqsimFluid_clone_gas_phase(self):
    gas_only_system = NeqsimFluid._remove_liquid(self._thermodynamic_system, use_gerg=self._use_gerg)
    return NeqsimFluid(thermodynamic_system=gas_only_system, use_gerg=self._use_gerg)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.copy", props=["C17"])
def NeqsimFluid_copy(self):
    return NeqsimFluid(thermodynamic_system=self._thermodynamic_system.clone(), use_gerg=self._use_gerg)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.set_new_pressure_and_enthalpy", props=["C17"])
def NeqsimFluid_set_new_pressure_and_enthalpy(self, new_pressure, new_enthalpy_joule_per_kg):
    try:
        new_thermodynamic_system = self._thermodynamic_system.clone()
        new_thermodynamic_system.setPressure(float(new_pressure), 'bara')
        new_thermodynamic_system = NeqsimFluid._ph_flash(thermodynamic_system=new_thermodynamic_system, enthalpy=new_enthalpy_joule_per_kg, use_gerg=self._use_gerg)
    except JAVA_ERRORS as error:
        raise NeqsimFlashCalculationError(f'NeqSim PH flash failed. pressure_bara={new_pressure}, target_enthalpy_joule_per_kg={new_enthalpy_joule_per_kg}.')
    return NeqsimFluid(thermodynamic_system=new_thermodynamic_system, use_gerg=self._use_gerg)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.set_new_pressure_and_temperature", props=["C17"])
def NeqsimFluid_set_new_pressure_and_temperature(self, new_pressure_bara, new_temperature_kelvin):
    try:
        new_thermodynamic_system = self._thermodynamic_system.clone()
        new_thermodynamic_system.setPressure(float(new_pressure_bara), 'bara')
        new_thermodynamic_system.setTemperature(float(new_temperature_kelvin), 'K')
        new_thermodynamic_system = NeqsimFluid._tp_flash(thermodynamic_system=new_thermodynamic_system, use_gerg=self._use_gerg)
    except JAVA_ERRORS as error:
        raise NeqsimFlashCalculationError(f'NeqSim TP flash failed. pressure_bara={new_pressure_bara}, temperature_kelvin={new_temperature_kelvin}.')
    return NeqsimFluid(thermodynamic_system=new_thermodynamic_system, use_gerg=self._use_gerg)


@target("ecalc_neqsim_wrapper.thermo.NeqsimFluid.display", props=["C17"])
def NeqsimFluid_display(self):
    self._thermodynamic_system.display()


@target("ecalc_neqsim_wrapper.thermo.get_GERG2008_properties", props=["C17"])
def f_get_GERG2008_properties(thermodynamic_system):
    try:
        gas_phase = thermodynamic_system.getPhase(0)
    except Exception as e:
        msg = 'Could not get gas phase. Make sure the fluid is specified correctly.'
        raise NeqsimPhaseError(msg)
    gerg_properties = gas_phase.getProperties_GERG2008()
    gerg_density = gas_phase.getDensity_GERG2008()
    enthalpy_joule_per_mol = gerg_properties[7]
    molar_mass_kg_per_mol = gas_phase.getMolarMass()
    enthalpy_joule_per_kg = enthalpy_joule_per_mol / molar_mass_kg_per_mol
    Cp = gerg_properties[10]
    R = 8.3144621
    kappa = Cp / (Cp - R)
    return GERG2008FluidProperties(density_kg_per_m3=gerg_density, z=gerg_properties[1], enthalpy_joule_per_kg=enthalpy_joule_per_kg, kappa=kappa)


@target("ecalc_neqsim_wrapper.thermo._get_enthalpy_joule_for_GERG2008_joule_per_kg", props=["C17"])
def f_get_enthalpy_joule_for_GERG2008_joule_per_kg(enthalpy, thermodynamic_system):
    return enthalpy * thermodynamic_system.getTotalNumberOfMoles() * thermodynamic_system.getMolarMass()


@target("ecalc_neqsim_wrapper.thermo.mix_neqsim_streams", props=["C17"], modular=True)
def f_mix_neqsim_streams(stream_composition_1, stream_composition_2, mass_rate_stream_1, mass_rate_stream_2, pressure, temperature, eos_model=EoSModel.SRK):
    normalized_comp_1 = stream_composition_1.normalized()
    normalized_comp_2 = stream_composition_2.normalized()
    molar_mass_1 = normalized_comp_1.molar_mass_mixture
    molar_mass_2 = normalized_comp_2.molar_mass_mixture
    molar_flow_rate_1 = mass_rate_stream_1 / molar_mass_1
    molar_flow_rate_2 = mass_rate_stream_2 / molar_mass_2
    component_molar_flow_rate = defaultdict(float)
    comp_1_dict = dataclasses.asdict(normalized_comp_1)
    comp_2_dict = dataclasses.asdict(normalized_comp_2)
    for composition, molar_rate in [(comp_1_dict, molar_flow_rate_1), (comp_2_dict, molar_flow_rate_2)]:
        for component, mole_fraction in composition.items():
            if mole_fraction > 0:
                component_molar_flow_rate[component] += molar_rate * mole_fraction
    total_molar_flow = sum(component_molar_flow_rate.values())
    mixed_composition_dict = {component: moles / total_molar_flow for component, moles in component_molar_flow_rate.items()}
    ecalc_fluid_composition = FluidComposition(**mixed_composition_dict).normalized()
    final_neqsim_fluid = NeqsimFluid.create_thermo_system(composition=ecalc_fluid_composition, temperature_kelvin=temperature, pressure_bara=pressure, eos_model=eos_model)
    return (ecalc_fluid_composition, final_neqsim_fluid)


@target("ecalc_neqsim_wrapper.mappings", props=["C17"])
class K65_constants:
    _map_fluid_component_to_neqsim = {'water': 'water', 'nitrogen': 'nitrogen', 'CO2': 'CO2', 'methane': 'methane', 'ethane': 'ethane', 'propane': 'propane', 'i_butane': 'i-butane', 'n_butane': 'n-butane', 'i_pentane': 'i-pentane', 'n_pentane': 'n-pentane', 'n_hexane': 'n-hexane'}
    _map_fluid_component_from_neqsim = {'water': 'water', 'nitrogen': 'nitrogen', 'CO2': 'CO2', 'methane': 'methane', 'ethane': 'ethane', 'propane': 'propane', 'i-butane': 'i_butane', 'n-butane': 'n_butane', 'i-pentane': 'i_pentane', 'n-pentane': 'n_pentane', 'n-hexane': 'n_hexane'}


@target("ecalc_neqsim_wrapper.mappings.NeqsimComposition", props=["C17"])
class NeqsimCompositionValues:
    water = 0.0
    nitrogen = 0.0
    CO2 = 0.0
    methane = 0.0
    ethane = 0.0
    propane = 0.0
    i_butane = 0.0
    n_butane = 0.0
    i_pentane = 0.0
    n_pentane = 0.0
    n_hexane = 0.0


@target("ecalc_neqsim_wrapper.mappings.NeqsimComposition.items", props=["C17"])
def NeqsimComposition_items(self):
    return list(self.model_dump().items())


@target("ecalc_neqsim_wrapper.mappings.map_fluid_composition_to_neqsim", props=["C17"])
def f_map_fluid_composition_to_neqsim(fluid_composition):
    component_dict = {}
    for component_name, value in dataclasses.asdict(fluid_composition).items():
        if value is not None and value > 0:
            neqsim_name = _map_fluid_component_to_neqsim[component_name]
            component_dict[neqsim_name] = float(value)
    if len(component_dict) < 1:
        msg = 'Can not run pvt calculations for fluid without components'
        raise EcalcError(title='Failed to create NeqSim fluid', message=msg)
    return component_dict


@target("ecalc_neqsim_wrapper.mappings.map_fluid_composition_from_neqsim", props=["C17"])
def f_map_fluid_composition_from_neqsim(neqsim_composition):
    return FluidComposition(**neqsim_composition.model_dump())


@target("ecalc_neqsim_wrapper.components", props=["C17"])
class K70_constants:
    COMPONENTS = ['methane', 'ethane', 'Cl-', 'Na+', 'Mg++', 'MDEA', 'MDEA+', 'H3O+', 'propane', 'CO2', 'methanol', 'MEG', 'oxygen', 'TEG', 'DEG', 'nitrogen', 'n-butane', 'HCO3-', 'Li+', 'K+', 'Ca++', 'I-', 'Sr++', 'Ba++', 'OH-', 'CO3--', 'NH4+', 'Br-', 'n-pentane', 'n-hexane', 'benzene', 'toluene', 'n-heptane', 'n-octane', 'nC10', 'n-nonane', 'hydrogen', 'argon', 'i-butane', 'c-propane', 'Cs+', 'Rb+', 'ice', 'nC11', 'nC12', 'nC13', 'nC14', 'nC15', 'nC16', 'nC17', 'nC18', 'nC19', 'nC20', 'nC21', 'nC22', 'nC23', 'nC24', '22-dim-C3', '22-dim-C4', '23-dim-C4', '2-m-C5', '3-m-C5', 'c-C5', 'default', 'Piperazine', 'Piperazine+', 'PZCOO-', 'H+PZCOO-', '-OOCPZCOO-', 'c-hexane', '22-DM-C5', 'M-cy-C5', '24-DM-C5', '223-TM-C4', '33-DM-C5', '2-M-C6', '23-DM-C5', '11-DM-cy-C5', '3-M-C6', 'cis-13-DM-cy-C5', 'trans-13-DM-cy-C5', 'trans-12-DM-cy-C5', '224-TM-C5', '113-TM-cy-C5', '22-DM-C6', 'E-cy-C5', '25-DM-C6', '24-DM-C6', 'cis-13-DM-cy-C6', '3-M-C7', '3-E-C6', 'ethylbenzene', 'm-Xylene', 'p-Xylene', 'o-Xylene', '2-M-C8', 'ethylcyclohexane', 'i-pentane', 'H2S', 'S8', 'AceticAcid', 'Ac-', 'neon', 'acetone', 'HS-', 'S--', 'ethanol', 'DEA', 'DEA+', 'DEACOO-', 'Piperazine++', 'CaCO3', 'water', 'F-', 'Fe++', 'Rb+', 'Pb++', 'NO3-', 'ClO4-', 'SO4--', 'helium', 'c-C7', 'c-C8', 'CO', 'methanolPVTsim', 'MEGPVTsim18', 'MEGPVTsim19', 'propanePVTsim', 'ethanolPVTsim', 'nbutanePVTsim', 'mercury', 'propylbenzene', 'NaCl', 'CaCl2', 'SF6', 'R12', 'R134a', 'COS', '2-M-C7', 'M-cy-C6', 'i-p-cy-C5', 'cis-12-DM-cy-C6', '234-TM-C5', '1,2-DM-cyC5', '1,3-dDM-cyC5', '1,cis-2,trans-4-TMcyC5', '2,3-DM-C6', '3-M-C8', '2,2-DM-C7', '2,6-DM-C7', '1,1,3-TM-cy-C6', '1,2,3-TMcyC6', '4-M-C8', 'o-E-toluene', '1,2,3-TM-Benzene', 'cy-C9', '2-E-p-xylene', 'nC5-Benzene', 'nC6-Benzene', 'nC7-Benzene', 'nC10-cy-C5', 'nC8-Benzene', 'nC9-Benzene', '3-M-4,4-DE-heptane', 'nC12-cy-C5', 'nC10-Benzene', 'nC14-cy-C5', 'nC17-cy-C5', 'nC27', 'nC34', 'nC39', '1,2,4-TMcyC6', 'nC30', '1-propanol', 'i-propanol', 'c-C4', '33-DM-C6', 'n-Bcychexane', 'Pent-CC6', 'nC25', 'nC26', 'nC28', 'nC29', 'Hg++', 'glycerol', 'sulfur(S8)', 'seawater', 'naphthalene', 'MEA', 'trans-12-DM-cy-C6', 'cis-14-DM-cy-C6', 'trans-14-DM-cy-C6', 'PG']


@target("ecalc_neqsim_wrapper.exceptions", props=["C17"])
class K71_constants:
    JAVA_ERRORS = (Py4JError, JException)


@target("ecalc_neqsim_wrapper.exceptions.NeqsimComponentError.__init__", props=["C17"])
def NeqsimComponentError_init(self, component_name):
    self.component_name = component_name
    message = f"Unknown component '{component_name}' from NeqSim. Check if the component is supported in eCalc."
    super().__init__(message)


@target("ecalc_neqsim_wrapper.exceptions.NeqsimFlashCalculationError.__init__", props=["C17"])
def NeqsimFlashCalculationError_init(self, message):
    super().__init__(message)


@target("ecalc_neqsim_wrapper.java_service.Py4JConfig", props=["C17"])
class Py4JConfigValues:
    _MEMORY_PATTERN = re.compile('^\\d+[kKmMgGtT]$')
    maximum_memory = '2G'
    shutdown_on_exit = True


@target("ecalc_neqsim_wrapper.java_service.Py4JConfig.__post_init__", props=["C17"])
def Py4JConfig_post_init(self):
    if not self._MEMORY_PATTERN.match(self.maximum_memory):
        raise ValueError()


@target("ecalc_neqsim_wrapper.java_service.Py4JConfig.default", props=["C17"])
def Py4JConfig_default(cls):
    return cls()


@target("ecalc_neqsim_wrapper.java_service._create_classpath", props=["C17"])
def f_create_classpath(jars):
    resources_dir = path.dirname(__file__) + '/lib'
    return _colon.join([path.join(resources_dir, jar) for jar in jars])


@target("ecalc_neqsim_wrapper.java_service.NeqsimService", props=["C17"])
class NeqsimServiceValues:
    _py4j_config = None


@target("ecalc_neqsim_wrapper.java_service.NeqsimService.__init__", props=["C17"])
def NeqsimService_init(self):
    raise ProgrammingError('Use factory() and initialize() to create an instance of NeqsimService.')


@target("ecalc_neqsim_wrapper.java_service.NeqsimService.configure_py4j", props=["C17"])
def NeqsimService_configure_py4j(cls, config):
    global _neqsim_service
    if _neqsim_service is not None:
        raise RuntimeError()
    cls._py4j_config = config
    _logger.info(f'Py4J configured: maximum_memory={config.maximum_memory}, shutdown_on_exit={config.shutdown_on_exit}')


@target("ecalc_neqsim_wrapper.java_service.NeqsimService.reset_py4j_config", props=["C17"])
def NeqsimService_reset_py4j_config(cls):
    cls._py4j_config = None


@target("ecalc_neqsim_wrapper.java_service.NeqsimService.instance", props=["C17"])
def NeqsimService_instance(cls):
    try:
        global _neqsim_service
        if _neqsim_service is None:
            raise ProgrammingError('NeqsimService is not initialized. Initialize before use.')
        return _neqsim_service
    except LookupError as e:
        raise ValueError()


@target("ecalc_neqsim_wrapper.java_service.NeqsimService.factory", props=["C17"])
def NeqsimService_factory(use_jpype=False):
    if use_jpype:
        return NeqsimJPypeService
    else:
        return NeqsimPy4JService


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.__new__", props=["C17"])
def NeqsimJPypeService_new(cls):
    instance = super().__new__(cls)
    return instance


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.initialize", props=["C17"])
def NeqsimJPypeService_initialize(cls):
    _logger.info('NeqsimJPypeService.initialize() called')
    global _neqsim_service
    if _neqsim_service is None:
        _neqsim_service = cls.__new__(cls)
        return _neqsim_service
    if type(_neqsim_service) is not NeqsimJPypeService:
        raise ProgrammingError('NeqsimService is already initialized with a different implementation, and can only be initialized once.')
    return _neqsim_service


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.get_neqsim_module", props=["C17"])
def NeqsimJPypeService_get_neqsim_module(self):
    import jneqsim
    return jneqsim.neqsim


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.__enter__", props=["C17"])
def NeqsimJPypeService_enter(self):
    return self


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.__exit__", props=["C17"])
def NeqsimJPypeService_exit(self, exc_type, exc_val, exc_tb):
    ...


@target("ecalc_neqsim_wrapper.java_service.NeqsimJPypeService.shutdown", props=["C17"])
def NeqsimJPypeService_shutdown(self):
    CacheService.clear_all()


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.__new__", props=["C17"])
def NeqsimPy4JService_new(cls):
    instance = super().__new__(cls)
    config = NeqsimService._py4j_config or Py4JConfig.default()
    instance._config = config
    instance._gateway = _start_server(maximum_memory=config.maximum_memory)
    _logger.info(f"Started neqsim process with PID '{instance._gateway.java_process.pid}' on port '{instance._gateway.gateway_parameters.port}'")
    return instance


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.initialize", props=["C17"])
def NeqsimPy4JService_initialize(cls):
    _logger.info('NeqsimPy4JService.initialize() called')
    global _neqsim_service
    if _neqsim_service is None:
        _neqsim_service = cls.__new__(cls)
        return _neqsim_service
    if type(_neqsim_service) is not NeqsimPy4JService:
        raise ProgrammingError('NeqsimService is already initialized with a different implementation, and can only be initialized once.')
    return _neqsim_service


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.__enter__", props=["C17"])
def NeqsimPy4JService_enter(self):
    return self


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.__exit__", props=["C17"])
def NeqsimPy4JService_exit(self, exc_type, exc_val, exc_tb):
    if self._config.shutdown_on_exit:
        self.shutdown()
    else:
        _logger.info('NeqsimPy4JService: shutdown_on_exit=False, keeping JVM alive')


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.get_neqsim_module", props=["C17"])
def NeqsimPy4JService_get_neqsim_module(self):
    return self._gateway.jvm.neqsim


@target("ecalc_neqsim_wrapper.java_service.NeqsimPy4JService.shutdown", props=["C17"])
def NeqsimPy4JService_shutdown(self):
    if self._gateway is None:
        return
    _logger.info('NeqsimPy4JService.shutdown called')
    _logger.info(f"Killing neqsim process with PID '{self._gateway.java_process.pid}' on port '{self._gateway.gateway_parameters.port}'")
    CacheService.clear_all()
    global _neqsim_service
    try:
        if type(_neqsim_service) is NeqsimPy4JService:
            _neqsim_service._gateway.shutdown()
            _neqsim_service._gateway = None
    except Exception:
        _logger.exception('Java gateway close failed')
    finally:
        _neqsim_service = None
