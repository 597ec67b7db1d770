# Reference equations (parsed by the checker, never executed).
import dataclasses
import numpy as np
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
from libecalc.common.numeric_methods import secant_method
from libecalc.common.utils.ecalc_uuid import ecalc_id_generator
from libecalc.domain.process.compressor.core.exceptions import CompressorThermodynamicCalculationError
from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError, InsufficientInletPressureError, LiquidAtInletError, OfftakeExceedsInletError, ProcessError
from libecalc.process.process_pipeline.process_pipeline import ProcessPipeline, ProcessPipelineId, ProcessPipelineSection, ProcessPipelineSectionId
from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType, NoAntiSurgeControlFailure
from libecalc.process.process_solver.anti_surge.common_asv import CommonASVAntiSurgeStrategy
from libecalc.process.process_solver.anti_surge.individual_asv import IndividualASVAntiSurgeStrategy
from libecalc.process.process_solver.boundary import Boundary
from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
from libecalc.process.process_solver.configuration import ChokeConfiguration, Configuration, ConfigurationHandlerId, RecirculationConfiguration, SpeedConfiguration, merge_configurations
from libecalc.process.process_solver.configuration_handler import ConfigurationHandler
from libecalc.process.process_solver.finder import Finding
from libecalc.process.process_solver.finders.choke_delta_pressure_finders import DownstreamChokeDeltaPressureFinder, UpstreamChokeDeltaPressureFinder
from libecalc.process.process_solver.finders.recirculation_loop_rate_finder import RecirculationLoopRateFinder
from libecalc.process.process_solver.finders.shaft_speed_finder import ShaftSpeedFinder
from libecalc.process.process_solver.float_constraint import FloatConstraint
from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver
from libecalc.process.process_solver.pipeline_section import Pipeline, PipelineSection
from libecalc.process.process_solver.pipeline_section_solver import PipelineSectionSolver
from libecalc.process.process_solver.pressure_control.common_asv import CommonASVPressureControlStrategy
from libecalc.process.process_solver.pressure_control.downstream_choke import DownstreamChokePressureControlStrategy
from libecalc.process.process_solver.pressure_control.individual_asv import IndividualASVPressureControlStrategy, IndividualASVRateControlStrategy, compute_minimum_achievable_pressure
from libecalc.process.process_solver.pressure_control.upstream_choke import UpstreamChokePressureControlStrategy
from libecalc.process.process_solver.process_pipeline_runner import ProcessPipelineRunner, propagate_stream_many
from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
from libecalc.process.process_solver.search_strategies import Bisect, BisectResult, DidNotConvergeError, ScipyRootFindingStrategy
from libecalc.process.process_solver.section_assembly import AssembledSection, recirculation_loop
from libecalc.process.process_solver.solver import CompressorStonewallFailure, CompressorSurgeFailure, ConvergenceFailure, InsufficientInletPressureFailure, LiquidAtInletFailure, OfftakeExceedsInletFailure, ProcessFailure, Solution, TargetDirection, TargetPressureUnreachableFailure, ThermodynamicCalculationFailure, process_error_to_failure
from libecalc.process.process_solver.solver_assembly import ProcessSolverSystem, _resolve_anti_surge_strategy, _resolve_pressure_control_strategy
from libecalc.process.process_units.choke import Choke
from libecalc.process.process_units.compressor import Compressor
from libecalc.process.process_units.direct_mixer import DirectMixer
from libecalc.process.process_units.direct_splitter import DirectSplitter
from libecalc.process.process_units.mixer import Mixer
from libecalc.process.process_units.splitter import Splitter
from math import isclose
from scipy.optimize import root_scalar
from typing import assert_never
_RATE_SEARCH_MAX_ITERATIONS = 40
_RATE_SEARCH_TOLERANCE = 0.0001
PRESSURE_CALCULATION_TOLERANCE = 0.001
CONVERGENCE_TOLERANCE = 1e-05
EPSILON = 1e-05
BETA_MAX = 1.0
STABLE_ITERS = 3
STEP_DOWN = 0.5
STEP_UP = 1.5
OSCILL_FLIP_REQ = 2
EPSILON_LARGE = 0.01
BETA_MIN = 0.1
MAXIMUM_NUMBER_OF_ITERATIONS = 50


@target("libecalc.process.process_solver.anti_surge.anti_surge_strategy.AntiSurgeType", props=["C20"])
class AntiSurgeTypeValues:
    NO_ASV = 'NO_ASV'
    INDIVIDUAL_ASV = 'INDIVIDUAL_ASV'
    COMMON_ASV = 'COMMON_ASV'


@target("libecalc.process.process_solver.anti_surge.anti_surge_strategy.NoAntiSurgeControlFailure", props=["C20"])
class NoAntiSurgeControlFailureValues:
    reason = ''


@target("libecalc.process.process_solver.anti_surge.anti_surge_strategy.NoAntiSurgeStrategy.__init__", props=["C20"])
def NoAntiSurgeStrategy_init(self, source_id):
    self._source_id = source_id


@target("libecalc.process.process_solver.anti_surge.anti_surge_strategy.NoAntiSurgeStrategy.reset", props=["C20"])
def NoAntiSurgeStrategy_reset(self):
    ...


@target("libecalc.process.process_solver.anti_surge.anti_surge_strategy.NoAntiSurgeStrategy.apply", props=["C20"])
def NoAntiSurgeStrategy_apply(self, inlet_stream):
    return Solution(configuration=[], failure=NoAntiSurgeControlFailure(source_id=self._source_id, reason='No Anti-Surge protection added when apparently needed.'))


@target("libecalc.process.process_solver.anti_surge.common_asv.CommonASVAntiSurgeStrategy.__init__", props=["C20"])
def CommonASVAntiSurgeStrategy_init(self, simulator, recirculation_loop_id, first_compressor, root_finding_strategy):
    self._recirculation_loop_id = recirculation_loop_id
    self._first_compressor = first_compressor
    self._root_finding_strategy = root_finding_strategy
    self._simulator = simulator


@target("libecalc.process.process_solver.anti_surge.common_asv.CommonASVAntiSurgeStrategy.reset", props=["C20"])
def CommonASVAntiSurgeStrategy_reset(self):
    self._simulator.reset_configuration_handler(self._recirculation_loop_id)


@target("libecalc.process.process_solver.anti_surge.common_asv.CommonASVAntiSurgeStrategy.apply", props=["C20"])
def CommonASVAntiSurgeStrategy_apply(self, inlet_stream):
    self.reset()
    finding = self._increase_recirculation_to_minimum_feasible(inlet_stream)
    return Solution(configuration=[Configuration(configuration_handler_id=self._recirculation_loop_id, value=finding.configuration)], failure=finding.failure)


@target("libecalc.process.process_solver.anti_surge.common_asv.CommonASVAntiSurgeStrategy._apply_configuration", props=["C20"])
def CommonASVAntiSurgeStrategy_apply_configuration(self, cfg):
    self._simulator.apply_configuration(Configuration(configuration_handler_id=self._recirculation_loop_id, value=cfg))


@target("libecalc.process.process_solver.anti_surge.common_asv.CommonASVAntiSurgeStrategy._increase_recirculation_to_minimum_feasible", props=["C20"])
def CommonASVAntiSurgeStrategy_increase_recirculation_to_minimum_feasible(self, inlet_stream):
    compressor_inlet_stream = self._simulator.run(inlet_stream=inlet_stream, to_id=self._first_compressor.get_id())
    boundary = self._first_compressor.get_recirculation_range(compressor_inlet_stream)

    def recirculation_func(cfg):
        self._apply_configuration(cfg)
        return self._simulator.run(inlet_stream=inlet_stream)
    finder = RecirculationLoopRateFinder(search_strategy=Bisect(tolerance=0.01), root_finding_strategy=self._root_finding_strategy, recirculation_rate_boundary=boundary, target_pressure=None)
    return finder.find(recirculation_func)


@target("libecalc.process.process_solver.anti_surge.individual_asv.IndividualASVAntiSurgeStrategy.__init__", props=["C20"])
def IndividualASVAntiSurgeStrategy_init(self, recirculation_loop_ids, compressors, simulator):
    self._recirculation_loop_ids = recirculation_loop_ids
    self._compressors = compressors
    self._simulator = simulator


@target("libecalc.process.process_solver.anti_surge.individual_asv.IndividualASVAntiSurgeStrategy.reset", props=["C20"])
def IndividualASVAntiSurgeStrategy_reset(self):
    for loop_id in self._recirculation_loop_ids:
        self._simulator.reset_configuration_handler(loop_id)


@target("libecalc.process.process_solver.anti_surge.individual_asv.IndividualASVAntiSurgeStrategy.apply", props=["C20"])
def IndividualASVAntiSurgeStrategy_apply(self, inlet_stream):
    self.reset()
    configurations = []
    for loop_id, compressor in zip(self._recirculation_loop_ids, self._compressors, strict=True):
        inlet_stream_compressor = self._simulator.run(inlet_stream=inlet_stream, to_id=compressor.get_id())
        boundary = compressor.get_recirculation_range(inlet_stream=inlet_stream_compressor)
        configuration = Configuration(configuration_handler_id=loop_id, value=RecirculationConfiguration(recirculation_rate=boundary.min))
        configurations.append(configuration)
        self._simulator.apply_configuration(configuration)
    return Solution(configuration=configurations)


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.__init__", props=["C20"])
def ChokeConfigurationHandler_init(self, choke, choke_configuration_handler_id=None):
    self._choke = choke
    self._id = choke_configuration_handler_id or ConfigurationHandler._create_id()


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.get_id", props=["C20"])
def ChokeConfigurationHandler_get_id(self):
    return self._id


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.get_choke_id", props=["C20"])
def ChokeConfigurationHandler_get_choke_id(self):
    return self._choke.get_id()


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.get_pressure_change", props=["C20"])
def ChokeConfigurationHandler_get_pressure_change(self):
    return self._choke.pressure_change


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.handle_configuration", props=["C20"])
def ChokeConfigurationHandler_handle_configuration(self, configuration):
    self._choke.set_pressure_change(configuration.value.delta_pressure)


@target("libecalc.process.process_solver.choke_configuration_handler.ChokeConfigurationHandler.reset", props=["C20"])
def ChokeConfigurationHandler_reset(self):
    self._choke.set_pressure_change(0.0)


@target("libecalc.process.process_solver.configuration.SpeedConfiguration.__eq__", props=["C20"])
def SpeedConfiguration_eq(self, other):
    if not isinstance(other, SpeedConfiguration):
        return NotImplemented
    return self.speed == other.speed


@target("libecalc.process.process_solver.configuration.SpeedConfiguration.__lt__", props=["C20"])
def SpeedConfiguration_lt(self, other):
    if not isinstance(other, SpeedConfiguration):
        return NotImplemented
    return self.speed < other.speed


@target("libecalc.process.process_solver.configuration.RecirculationConfiguration.__post_init__", props=["C20"])
def RecirculationConfiguration_post_init(self):
    self.recirculation_rate = float(self.recirculation_rate)


@target("libecalc.process.process_solver.configuration.merge_configurations", props=["C20"])
def f_merge_configurations(first_configurations, second_configurations):
    merged = {config.configuration_handler_id: config for config in first_configurations}
    merged.update({config.configuration_handler_id: config for config in second_configurations})
    return list(merged.values())


@target("libecalc.process.process_solver.configuration_handler.ConfigurationHandler._create_id", props=["C20"])
def ConfigurationHandler_create_id(cls):
    return ConfigurationHandlerId(ecalc_id_generator())


@target("libecalc.process.process_solver.feasibility_solver", props=["C20"])
class K24_constants:
    _RATE_SEARCH_TOLERANCE = 0.0001
    _RATE_SEARCH_MAX_ITERATIONS = 40


@target("libecalc.process.process_solver.feasibility_solver.FeasibilitySolver.__init__", props=["C20"])
def FeasibilitySolver_init(self, pipeline_section_solver, search_strategy=None):
    self._solver = pipeline_section_solver
    self._search_strategy = search_strategy or Bisect(tolerance=_RATE_SEARCH_TOLERANCE, max_iterations=_RATE_SEARCH_MAX_ITERATIONS)


@target("libecalc.process.process_solver.feasibility_solver.FeasibilitySolver.get_excess_rate", props=["C20"])
def FeasibilitySolver_get_excess_rate(self, inlet_stream, target_pressure):
    full_rate = inlet_stream.standard_rate_sm3_per_day
    if full_rate <= 0.0:
        return 0.0
    if self._is_feasible(inlet_stream, target_pressure):
        return 0.0
    capacity = self._largest_feasible_rate(inlet_stream, target_pressure, full_rate)
    return max(0.0, full_rate - capacity)


@target("libecalc.process.process_solver.feasibility_solver.FeasibilitySolver._largest_feasible_rate", props=["C20"])
def FeasibilitySolver_largest_feasible_rate(self, inlet_stream, target_pressure, upper_bound_sm3_per_day):
    boundary = Boundary(min=0.0, max=upper_bound_sm3_per_day)
    try:
        return self._search_strategy.search(boundary=boundary, func=lambda rate: BisectResult(higher=self._is_feasible(inlet_stream.with_standard_rate(rate), target_pressure), accepted=True))
    except DidNotConvergeError:
        return 0.0


@target("libecalc.process.process_solver.feasibility_solver.FeasibilitySolver._is_feasible", props=["C20"])
def FeasibilitySolver_is_feasible(self, inlet_stream, target_pressure):
    return self._solver.find_solution([target_pressure], inlet_stream).success


@target("libecalc.process.process_solver.finder.Finding", props=["C20"])
class FindingValues:
    failure = None


@target("libecalc.process.process_solver.finder.Finding.success", props=["C20"])
def Finding_success(self):
    return self.failure is None


@target("libecalc.process.process_solver.finders.choke_delta_pressure_finders.UpstreamChokeDeltaPressureFinder.__init__", props=["C20"])
def UpstreamChokeDeltaPressureFinder_init(self, root_finding_strategy, target_pressure, delta_pressure_boundary):
    self._target_pressure = target_pressure
    self._boundary = delta_pressure_boundary
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.finders.choke_delta_pressure_finders.UpstreamChokeDeltaPressureFinder.find", props=["C20"])
def UpstreamChokeDeltaPressureFinder_find(self, func):

    def outlet_pressure(delta_pressure):
        return func(ChokeConfiguration(delta_pressure=delta_pressure)).pressure_bara
    capacity_error = None
    try:
        outlet_pressure(self._boundary.max)
        search_max = self._boundary.max
    except (CompressorStonewallError, InsufficientInletPressureError) as e:
        capacity_error = e
        lo, hi = (self._boundary.min, self._boundary.max)
        while hi - lo > PRESSURE_CALCULATION_TOLERANCE:
            mid = (lo + hi) / 2
            try:
                outlet_pressure(mid)
                lo = mid
            except (CompressorStonewallError, InsufficientInletPressureError) as bisect_error:
                capacity_error = bisect_error
                hi = mid
        search_max = lo
    max_pressure = outlet_pressure(search_max)
    closest = ChokeConfiguration(delta_pressure=search_max)
    if max_pressure > self._target_pressure:
        if capacity_error is not None:
            if isinstance(capacity_error, CompressorStonewallError):
                return Finding(configuration=closest, failure=CompressorStonewallFailure.from_error(capacity_error))
            if isinstance(capacity_error, InsufficientInletPressureError):
                return Finding(configuration=closest, failure=InsufficientInletPressureFailure.from_error(capacity_error))
            raise capacity_error
        return Finding(configuration=closest, failure=TargetPressureUnreachableFailure(achievable_pressure_bara=max_pressure, target_pressure_bara=self._target_pressure, direction=TargetDirection.MIN_ABOVE_TARGET))
    delta_pressure = self._root_finding_strategy.find_root(boundary=Boundary(min=self._boundary.min, max=search_max), func=lambda x: outlet_pressure(x) - self._target_pressure)
    return Finding(configuration=ChokeConfiguration(delta_pressure=delta_pressure))


@target("libecalc.process.process_solver.finders.choke_delta_pressure_finders.DownstreamChokeDeltaPressureFinder.__init__", props=["C20"])
def DownstreamChokeDeltaPressureFinder_init(self, target_pressure):
    self._target_pressure = target_pressure


@target("libecalc.process.process_solver.finders.choke_delta_pressure_finders.DownstreamChokeDeltaPressureFinder.find", props=["C20"])
def DownstreamChokeDeltaPressureFinder_find(self, func):
    outlet_stream = func(ChokeConfiguration(delta_pressure=0))
    if outlet_stream.pressure_bara < self._target_pressure:
        return Finding(configuration=ChokeConfiguration(delta_pressure=0), failure=TargetPressureUnreachableFailure(achievable_pressure_bara=outlet_stream.pressure_bara, target_pressure_bara=self._target_pressure, direction=TargetDirection.MAX_BELOW_TARGET))
    pressure_change = outlet_stream.pressure_bara - self._target_pressure
    return Finding(configuration=ChokeConfiguration(delta_pressure=pressure_change))


@target("libecalc.process.process_solver.finders.recirculation_loop_rate_finder.RecirculationLoopRateFinder.__init__", props=["C20"])
def RecirculationLoopRateFinder_init(self, search_strategy, root_finding_strategy, recirculation_rate_boundary, target_pressure=None):
    self._recirculation_rate_boundary = recirculation_rate_boundary
    self._target_pressure = target_pressure
    self._search_strategy = search_strategy
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.finders.recirculation_loop_rate_finder.RecirculationLoopRateFinder.find", props=["C20"])
def RecirculationLoopRateFinder_find(self, func):
    try:
        minimum_rate = self._find_min_within_capacity_rate(func)
    except CompressorStonewallError as e:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=self._recirculation_rate_boundary.min), failure=CompressorStonewallFailure.from_error(e))
    except InsufficientInletPressureError as e:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=self._recirculation_rate_boundary.min), failure=InsufficientInletPressureFailure.from_error(e))
    target_pressure = self._target_pressure
    if target_pressure is None:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=minimum_rate))
    maximum_rate = self._find_max_within_capacity_rate(func)
    minimum_outlet_stream = func(RecirculationConfiguration(recirculation_rate=minimum_rate))
    if minimum_outlet_stream.pressure_bara < target_pressure:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=minimum_rate), failure=TargetPressureUnreachableFailure(achievable_pressure_bara=minimum_outlet_stream.pressure_bara, target_pressure_bara=target_pressure.value, direction=TargetDirection.MAX_BELOW_TARGET))
    if minimum_outlet_stream.pressure_bara == target_pressure:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=minimum_rate))
    maximum_outlet_stream = func(RecirculationConfiguration(recirculation_rate=maximum_rate))
    if maximum_outlet_stream.pressure_bara == target_pressure:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=maximum_rate))
    if maximum_outlet_stream.pressure_bara > target_pressure:
        return Finding(configuration=RecirculationConfiguration(recirculation_rate=maximum_rate), failure=TargetPressureUnreachableFailure(achievable_pressure_bara=maximum_outlet_stream.pressure_bara, target_pressure_bara=target_pressure.value, direction=TargetDirection.MIN_ABOVE_TARGET))
    recirculation_rate = self._root_finding_strategy.find_root(boundary=Boundary(min=minimum_rate, max=maximum_rate), func=lambda x: func(RecirculationConfiguration(recirculation_rate=x)).pressure_bara - target_pressure.value)
    return Finding(configuration=RecirculationConfiguration(recirculation_rate=recirculation_rate))


@target("libecalc.process.process_solver.finders.recirculation_loop_rate_finder.RecirculationLoopRateFinder._find_min_within_capacity_rate", props=["C20"])
def RecirculationLoopRateFinder_find_min_within_capacity_rate(self, func):
    minimum_rate = self._recirculation_rate_boundary.min
    try:
        func(RecirculationConfiguration(recirculation_rate=minimum_rate))
        return minimum_rate
    except CompressorSurgeError:
        return self._search_strategy.search(boundary=self._recirculation_rate_boundary, func=lambda x: self._bool_func(func, x, mode='minimize'))


@target("libecalc.process.process_solver.finders.recirculation_loop_rate_finder.RecirculationLoopRateFinder._find_max_within_capacity_rate", props=["C20"])
def RecirculationLoopRateFinder_find_max_within_capacity_rate(self, func):
    maximum_rate = self._recirculation_rate_boundary.max
    try:
        func(RecirculationConfiguration(recirculation_rate=maximum_rate))
        return maximum_rate
    except CompressorStonewallError:
        return self._search_strategy.search(boundary=self._recirculation_rate_boundary, func=lambda x: self._bool_func(func, x, mode='maximize'))


@target("libecalc.process.process_solver.finders.recirculation_loop_rate_finder.RecirculationLoopRateFinder._bool_func", props=["C20"])
def RecirculationLoopRateFinder_bool_func(func, x, mode):
    try:
        func(RecirculationConfiguration(recirculation_rate=x))
        return BisectResult(higher=mode != 'minimize', accepted=True)
    except CompressorSurgeError:
        return BisectResult(higher=True, accepted=False)
    except (CompressorStonewallError, InsufficientInletPressureError):
        return BisectResult(higher=False, accepted=False)


@target("libecalc.process.process_solver.finders.shaft_speed_finder.ShaftSpeedFinder.__init__", props=["C20"])
def ShaftSpeedFinder_init(self, search_strategy, root_finding_strategy, boundary, target_pressure):
    self._boundary = boundary
    self._target_pressure = target_pressure
    self._search_strategy = search_strategy
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.finders.shaft_speed_finder.ShaftSpeedFinder.find", props=["C20"])
def ShaftSpeedFinder_find(self, func):
    max_speed_configuration = SpeedConfiguration(speed=self._boundary.max)
    try:
        maximum_speed_outlet_stream = func(max_speed_configuration)
    except CompressorStonewallError as e:
        return Finding(configuration=max_speed_configuration, failure=CompressorStonewallFailure.from_error(e))
    except CompressorSurgeError as e:
        return Finding(configuration=max_speed_configuration, failure=CompressorSurgeFailure.from_error(e))
    except CompressorThermodynamicCalculationError:
        valid_max = self._search_strategy.highest_true(self._boundary, lambda speed: self._eos_ok(func, speed))
        if valid_max is None:
            return Finding(configuration=max_speed_configuration, failure=ThermodynamicCalculationFailure(reason=f'EOS failed at all speeds in boundary [{self._boundary.min:.1f}, {self._boundary.max:.1f}] rpm'))
        return ShaftSpeedFinder(search_strategy=self._search_strategy, root_finding_strategy=self._root_finding_strategy, boundary=Boundary(min=self._boundary.min, max=valid_max), target_pressure=self._target_pressure).find(func)
    except InsufficientInletPressureError as e:
        return Finding(configuration=max_speed_configuration, failure=InsufficientInletPressureFailure.from_error(e))
    if maximum_speed_outlet_stream.pressure_bara < self._target_pressure:
        return Finding(configuration=max_speed_configuration, failure=TargetPressureUnreachableFailure(achievable_pressure_bara=maximum_speed_outlet_stream.pressure_bara, target_pressure_bara=self._target_pressure, direction=TargetDirection.MAX_BELOW_TARGET))
    try:
        minimum_speed_configuration, minimum_speed_outlet_stream = self._find_min_within_capacity_speed(func)
    except CompressorSurgeError as e:
        min_config = SpeedConfiguration(speed=self._boundary.min)
        return Finding(configuration=min_config, failure=CompressorSurgeFailure.from_error(e))
    except CompressorStonewallError as e:
        min_config = SpeedConfiguration(speed=self._boundary.min)
        return Finding(configuration=min_config, failure=CompressorStonewallFailure.from_error(e))
    except InsufficientInletPressureError as e:
        min_config = SpeedConfiguration(speed=self._boundary.min)
        return Finding(configuration=min_config, failure=InsufficientInletPressureFailure.from_error(e))
    if minimum_speed_outlet_stream.pressure_bara > self._target_pressure:
        return Finding(configuration=minimum_speed_configuration, failure=TargetPressureUnreachableFailure(achievable_pressure_bara=minimum_speed_outlet_stream.pressure_bara, target_pressure_bara=self._target_pressure, direction=TargetDirection.MIN_ABOVE_TARGET))

    def root_speed_func(x):
        out = func(SpeedConfiguration(speed=x))
        return out.pressure_bara - self._target_pressure
    speed = self._root_finding_strategy.find_root(boundary=Boundary(min=minimum_speed_configuration.speed, max=self._boundary.max), func=root_speed_func)
    return Finding(configuration=SpeedConfiguration(speed=speed))


@target("libecalc.process.process_solver.finders.shaft_speed_finder.ShaftSpeedFinder._eos_ok", props=["C20"])
def ShaftSpeedFinder_eos_ok(func, speed):
    try:
        func(SpeedConfiguration(speed=speed))
        return True
    except (CompressorThermodynamicCalculationError, CompressorStonewallError, CompressorSurgeError, InsufficientInletPressureError):
        return False


@target("libecalc.process.process_solver.finders.shaft_speed_finder.ShaftSpeedFinder._find_min_within_capacity_speed", props=["C20"])
def ShaftSpeedFinder_find_min_within_capacity_speed(self, func):
    minimum_speed_configuration = SpeedConfiguration(speed=self._boundary.min)
    try:
        minimum_result = func(minimum_speed_configuration)
        return (minimum_speed_configuration, minimum_result)
    except (CompressorStonewallError, CompressorThermodynamicCalculationError, InsufficientInletPressureError) as e:

        def bool_speed_func(x):
            try:
                func(SpeedConfiguration(speed=x))
                return BisectResult(higher=False, accepted=True)
            except (CompressorStonewallError, CompressorThermodynamicCalculationError, InsufficientInletPressureError):
                return BisectResult(higher=True, accepted=False)
            except CompressorSurgeError:
                return BisectResult(higher=False, accepted=False)
        minimum_speed_within_capacity = self._search_strategy.search(boundary=self._boundary, func=bool_speed_func)
        minimum_speed_configuration = SpeedConfiguration(speed=minimum_speed_within_capacity)
        minimum_result = func(minimum_speed_configuration)
        return (minimum_speed_configuration, minimum_result)


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__init__", props=["C20"])
def FloatConstraint_init(self, value, abs_tol=PRESSURE_CALCULATION_TOLERANCE):
    self.value = float(value)
    self.abs_tol = abs_tol


@target("libecalc.process.process_solver.float_constraint.FloatConstraint._is_close", props=["C20"])
def FloatConstraint_is_close(self, other):
    try:
        other_val = float(other)
    except (TypeError, ValueError):
        return NotImplemented
    return isclose(self.value, other_val, rel_tol=0, abs_tol=self.abs_tol)


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__eq__", props=["C20"])
def FloatConstraint_eq(self, other):
    return self._is_close(other)


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__ne__", props=["C20"])
def FloatConstraint_ne(self, other):
    return not self._is_close(other)


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__lt__", props=["C20"])
def FloatConstraint_lt(self, other):
    try:
        other_val = float(other)
    except (TypeError, ValueError):
        return NotImplemented
    return not self._is_close(other) and self.value < other_val


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__le__", props=["C20"])
def FloatConstraint_le(self, other):
    try:
        float(other)
    except (TypeError, ValueError):
        return NotImplemented
    return self.__lt__(other) or self._is_close(other)


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__gt__", props=["C20"])
def FloatConstraint_gt(self, other):
    try:
        other_val = float(other)
    except (TypeError, ValueError):
        return NotImplemented
    return not self._is_close(other) and self.value > other_val


@target("libecalc.process.process_solver.float_constraint.FloatConstraint.__ge__", props=["C20"])
def FloatConstraint_ge(self, other):
    try:
        float(other)
    except (TypeError, ValueError):
        return NotImplemented
    return self.__gt__(other) or self._is_close(other)


@target("libecalc.process.process_solver.multi_pressure_solver.MultiPressureSolver.__init__", props=["C20"])
def MultiPressureSolver_init(self, pipeline):
    if len(pipeline.get_process_pipeline_sections()) < 2:
        raise EcalcValidationException('MultiPressureSolver requires at least 2 pipeline sections.')
    self._pipeline = pipeline
    pipeline_sections = pipeline.get_process_pipeline_sections()
    shaft_ids = {pipeline_section.get_shaft_id() for pipeline_section in pipeline_sections}
    if len(shaft_ids) != 1:
        raise EcalcValidationException('All pipeline sections must share the same shaft_id.')
    self._shaft_id = next(iter(shaft_ids))
    self._validate_pressure_control_placement(pipeline_sections)
    self._pipeline_sections = pipeline_sections


@target("libecalc.process.process_solver.multi_pressure_solver.MultiPressureSolver._validate_pressure_control_placement", props=["C20"])
def MultiPressureSolver_validate_pressure_control_placement(pipeline_sections):
    for i, pipeline_section in enumerate(pipeline_sections):
        strategy = pipeline_section.get_pressure_control_strategy()
        is_first = i == 0
        is_last = i == len(pipeline_sections) - 1
        if isinstance(strategy, UpstreamChokePressureControlStrategy) and (not is_first):
            raise EcalcValidationException(f'UpstreamChokePressureControlStrategy is only valid for the first pipeline section (pipeline section {i} of {len(pipeline_sections)}).')
        if isinstance(strategy, DownstreamChokePressureControlStrategy) and (not is_last):
            raise EcalcValidationException(f'DownstreamChokePressureControlStrategy is only valid for the last pipeline section (pipeline section {i} of {len(pipeline_sections)}).')


@target("libecalc.process.process_solver.multi_pressure_solver.MultiPressureSolver.find_solution", props=["C20"])
def MultiPressureSolver_find_solution(self, pressure_targets, inlet_stream):
    if len(pressure_targets) != len(self._pipeline_sections):
        raise EcalcValidationException(f'Number of pressure targets ({len(pressure_targets)}) must match number of pipeline sections ({len(self._pipeline_sections)}).')
    try:
        return self._find_solution(pressure_targets, inlet_stream)
    except DidNotConvergeError as e:
        return Solution(configuration=[], failure=ConvergenceFailure.from_error(e))
    except ProcessError as e:
        return Solution(configuration=[], failure=process_error_to_failure(e))


@target("libecalc.process.process_solver.multi_pressure_solver.MultiPressureSolver._find_solution", props=["C20"])
def MultiPressureSolver_find_solution_(self, pressure_targets, inlet_stream):
    speed_configurations = []
    current_inlet = inlet_stream
    for pipeline_section, target in zip(self._pipeline_sections, pressure_targets, strict=True):
        solution_for_pipeline_section = PipelineSectionSolver(pipeline_section).find_solution(pressure_targets=[target], inlet_stream=current_inlet)
        if not solution_for_pipeline_section.success:
            return solution_for_pipeline_section
        speed_configuration = solution_for_pipeline_section.get_configuration(self._shaft_id)
        speed_configurations.append(speed_configuration)
        pipeline_section.get_runner().apply_configurations(solution_for_pipeline_section.configuration)
        current_inlet = pipeline_section.get_runner().run(inlet_stream=current_inlet)
    shaft_config = Configuration(configuration_handler_id=self._shaft_id, value=max(speed_configurations))
    solution = Solution(configuration=[shaft_config])
    current_inlet = inlet_stream
    for pipeline_section, target in zip(self._pipeline_sections, pressure_targets, strict=True):
        pipeline_section.get_pressure_control_strategy().reset()
        pipeline_section.get_runner().apply_configuration(shaft_config)
        anti_surge_solution = pipeline_section.get_anti_surge_strategy().apply(inlet_stream=current_inlet)
        pipeline_section.get_runner().apply_configurations(anti_surge_solution.configuration)
        solution = solution.combine(anti_surge_solution)
        if not solution.success:
            return solution
        outlet = pipeline_section.get_runner().run(inlet_stream=current_inlet)
        if outlet.pressure_bara > target:
            pressure_control_solution = pipeline_section.get_pressure_control_strategy().apply(target_pressure=target, inlet_stream=current_inlet)
            solution = solution.combine(pressure_control_solution)
            if not solution.success:
                return solution
            pipeline_section.get_runner().apply_configurations(pressure_control_solution.configuration)
            outlet = pipeline_section.get_runner().run(inlet_stream=current_inlet)
        elif outlet.pressure_bara < target:
            return Solution.target_pressure_unreachable(configuration=solution.configuration, achievable_pressure_bara=outlet.pressure_bara, target_pressure_bara=target.value, source_id=pipeline_section.get_id(), direction=TargetDirection.MAX_BELOW_TARGET)
        current_inlet = outlet
    return solution


@target("libecalc.process.process_solver.multi_shaft_equal_ratio_solver.MultiShaftEqualRatioSolver.__init__", props=["C20"])
def MultiShaftEqualRatioSolver_init(self, pipeline_sections):
    self._pipeline_sections = list(pipeline_sections)
    self._solver = MultiShaftSolver(list(pipeline_sections))


@target("libecalc.process.process_solver.multi_shaft_equal_ratio_solver.MultiShaftEqualRatioSolver.find_solution", props=["C20"])
def MultiShaftEqualRatioSolver_find_solution(self, pressure_targets, inlet_stream):
    pressure_target = pressure_targets[0]
    n = len(self._pipeline_sections)
    if n == 0:
        return Solution(configuration=[], failure=None)
    pressure_ratio = (pressure_target.value / inlet_stream.pressure_bara) ** (1.0 / n)
    current_p = inlet_stream.pressure_bara
    targets = []
    for _i in range(n):
        current_p *= pressure_ratio
        targets.append(FloatConstraint(current_p, abs_tol=pressure_target.abs_tol))
    targets[-1] = pressure_target
    return self._solver.find_solution(targets, inlet_stream)


@target("libecalc.process.process_solver.multi_shaft_solver.MultiShaftSolver.__init__", props=["C20"])
def MultiShaftSolver_init(self, pipeline_sections):
    self._pipeline_sections = list(pipeline_sections)


@target("libecalc.process.process_solver.multi_shaft_solver.MultiShaftSolver.find_solution", props=["C20"])
def MultiShaftSolver_find_solution(self, pressure_targets, inlet_stream):
    try:
        return self._find_solution(pressure_targets, inlet_stream)
    except DidNotConvergeError as e:
        return Solution(configuration=[], failure=ConvergenceFailure.from_error(e))
    except ProcessError as e:
        return Solution(configuration=[], failure=process_error_to_failure(e))


@target("libecalc.process.process_solver.multi_shaft_solver.MultiShaftSolver._find_solution", props=["C20"])
def MultiShaftSolver_find_solution_(self, pressure_targets, inlet_stream):
    if not self._pipeline_sections:
        return Solution(configuration=[])
    current_inlet = inlet_stream
    all_configurations = []
    for i, (pipeline_section, target) in enumerate(zip(self._pipeline_sections, pressure_targets, strict=True)):
        solution = PipelineSectionSolver(pipeline_section).find_solution([target], current_inlet)
        all_configurations.extend(solution.configuration)
        if not solution.success:
            return Solution(configuration=all_configurations, failure=solution.failure)
        pipeline_section.get_runner().apply_configurations(solution.configuration)
        current_inlet = pipeline_section.get_runner().run(current_inlet)
    return Solution(configuration=all_configurations)


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.__init__", props=["C20"])
def PipelineSection_init(self, shaft_id, runner, anti_surge_strategy, pressure_control_strategy, speed_boundary, root_finding_strategy, process_pipeline_id, process_pipeline_section_id=None):
    self._id = process_pipeline_section_id or PipelineSection._create_id()
    self._process_pipeline_id = process_pipeline_id
    self._shaft_id = shaft_id
    self._runner = runner
    self._anti_surge_strategy = anti_surge_strategy
    self._pressure_control_strategy = pressure_control_strategy
    self._speed_boundary = speed_boundary
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_id", props=["C20"])
def PipelineSection_get_id(self):
    return self._id


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_process_pipeline_id", props=["C20"])
def PipelineSection_get_process_pipeline_id(self):
    return self._process_pipeline_id


@target("libecalc.process.process_solver.pipeline_section.PipelineSection._create_id", props=["C20"])
def PipelineSection_create_id(cls):
    return ProcessPipelineSectionId(ecalc_id_generator())


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_shaft_id", props=["C20"])
def PipelineSection_get_shaft_id(self):
    return self._shaft_id


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_runner", props=["C20"])
def PipelineSection_get_runner(self):
    return self._runner


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_anti_surge_strategy", props=["C20"])
def PipelineSection_get_anti_surge_strategy(self):
    return self._anti_surge_strategy


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_pressure_control_strategy", props=["C20"])
def PipelineSection_get_pressure_control_strategy(self):
    return self._pressure_control_strategy


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_speed_boundary", props=["C20"])
def PipelineSection_get_speed_boundary(self):
    return self._speed_boundary


@target("libecalc.process.process_solver.pipeline_section.PipelineSection.get_root_finding_strategy", props=["C20"])
def PipelineSection_get_root_finding_strategy(self):
    return self._root_finding_strategy


@target("libecalc.process.process_solver.pipeline_section.Pipeline.__init__", props=["C20"])
def Pipeline_init(self, process_pipeline_sections, process_pipeline_id=None):
    self._id = process_pipeline_id or Pipeline._create_id()
    self._process_pipeline_sections = process_pipeline_sections


@target("libecalc.process.process_solver.pipeline_section.Pipeline.get_id", props=["C20"])
def Pipeline_get_id(self):
    return self._id


@target("libecalc.process.process_solver.pipeline_section.Pipeline._create_id", props=["C20"])
def Pipeline_create_id(cls):
    return ProcessPipelineId(ecalc_id_generator())


@target("libecalc.process.process_solver.pipeline_section.Pipeline.get_process_pipeline_sections", props=["C20"])
def Pipeline_get_process_pipeline_sections(self):
    return self._process_pipeline_sections


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver.__init__", props=["C20"])
def PipelineSectionSolver_init(self, pipeline_section):
    self._pipeline_section = pipeline_section


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver._get_initial_speed_boundary", props=["C20"])
def PipelineSectionSolver_get_initial_speed_boundary(self):
    return self._pipeline_section.get_speed_boundary()


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver._find_speed_solution", props=["C20"])
def PipelineSectionSolver_find_speed_solution(self, pressure_constraint, inlet_stream):
    self._pipeline_section.get_pressure_control_strategy().reset()
    shaft_speed_finder = ShaftSpeedFinder(search_strategy=Bisect(), root_finding_strategy=self._pipeline_section.get_root_finding_strategy(), boundary=self._get_initial_speed_boundary(), target_pressure=pressure_constraint.value)

    def speed_func(configuration):
        self._pipeline_section.get_anti_surge_strategy().reset()
        self._pipeline_section.get_runner().apply_configuration(Configuration(configuration_handler_id=self._pipeline_section.get_shaft_id(), value=configuration))
        try:
            return self._pipeline_section.get_runner().run(inlet_stream=inlet_stream)
        except CompressorSurgeError:
            solution = self._pipeline_section.get_anti_surge_strategy().apply(inlet_stream=inlet_stream)
            self._pipeline_section.get_runner().apply_configurations(solution.configuration)
            return self._pipeline_section.get_runner().run(inlet_stream=inlet_stream)
    return shaft_speed_finder.find(speed_func)


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver._get_outlet_stream", props=["C20"])
def PipelineSectionSolver_get_outlet_stream(self, inlet_stream, configurations):
    self._pipeline_section.get_runner().apply_configurations(configurations)
    return self._pipeline_section.get_runner().run(inlet_stream=inlet_stream)


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver.find_solution", props=["C20"])
def PipelineSectionSolver_find_solution(self, pressure_targets, inlet_stream):
    pressure_target = pressure_targets[0]
    shaft_config = Configuration(configuration_handler_id=self._pipeline_section.get_shaft_id(), value=SpeedConfiguration(speed=self._pipeline_section.get_speed_boundary().min))
    try:
        return self._find_solution(pressure_target, inlet_stream)
    except DidNotConvergeError as e:
        return Solution(configuration=[shaft_config], failure=ConvergenceFailure.from_error(e, source_id=self._pipeline_section.get_process_pipeline_id()))
    except ProcessError as e:
        return Solution(configuration=[shaft_config], failure=process_error_to_failure(e))


@target("libecalc.process.process_solver.pipeline_section_solver.PipelineSectionSolver._find_solution", props=["C20"])
def PipelineSectionSolver_find_solution_(self, pressure_target, inlet_stream):
    speed_finding = self._find_speed_solution(pressure_constraint=pressure_target, inlet_stream=inlet_stream)
    shaft_config = Configuration(configuration_handler_id=self._pipeline_section.get_shaft_id(), value=speed_finding.configuration)
    if isinstance(speed_finding.failure, (CompressorStonewallFailure, CompressorSurgeFailure, ThermodynamicCalculationFailure, InsufficientInletPressureFailure)):
        return Solution(configuration=[shaft_config], failure=speed_finding.failure)
    self._pipeline_section.get_runner().apply_configuration(shaft_config)
    anti_surge_solution = self._pipeline_section.get_anti_surge_strategy().apply(inlet_stream=inlet_stream)
    speed_and_anti_surge_configurations = [shaft_config, *anti_surge_solution.configuration]
    if not anti_surge_solution.success:
        return Solution(configuration=speed_and_anti_surge_configurations, failure=anti_surge_solution.failure)
    if isinstance(speed_finding.failure, TargetPressureUnreachableFailure) and speed_finding.failure.direction == TargetDirection.MAX_BELOW_TARGET:
        failure = speed_finding.failure.with_source_id(self._pipeline_section.get_id())
        return Solution(configuration=speed_and_anti_surge_configurations, failure=failure)
    outlet_at_chosen_speed = self._get_outlet_stream(inlet_stream=inlet_stream, configurations=speed_and_anti_surge_configurations)
    if outlet_at_chosen_speed.pressure_bara == pressure_target:
        return Solution(configuration=speed_and_anti_surge_configurations)
    pressure_control_solution = self._pipeline_section.get_pressure_control_strategy().apply(target_pressure=pressure_target, inlet_stream=inlet_stream)
    failure = pressure_control_solution.failure
    if isinstance(failure, TargetPressureUnreachableFailure) and failure.source_id is None:
        failure = failure.with_source_id(self._pipeline_section.get_id())
    return Solution(configuration=merge_configurations(speed_and_anti_surge_configurations, pressure_control_solution.configuration), failure=failure)


@target("libecalc.process.process_solver.pressure_control.common_asv.CommonASVPressureControlStrategy.__init__", props=["C20"])
def CommonASVPressureControlStrategy_init(self, simulator, recirculation_loop_id, first_compressor, root_finding_strategy):
    self._simulator = simulator
    self._recirculation_loop_id = recirculation_loop_id
    self._first_compressor = first_compressor
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.pressure_control.common_asv.CommonASVPressureControlStrategy.reset", props=["C20"])
def CommonASVPressureControlStrategy_reset(self):
    self._simulator.reset_configuration_handler(self._recirculation_loop_id)


@target("libecalc.process.process_solver.pressure_control.common_asv.CommonASVPressureControlStrategy.apply", props=["C20"])
def CommonASVPressureControlStrategy_apply(self, target_pressure, inlet_stream):
    self.reset()

    def recirculation_func(config):
        self._simulator.apply_configuration(Configuration(configuration_handler_id=self._recirculation_loop_id, value=config))
        return self._simulator.run(inlet_stream=inlet_stream)
    compressor_inlet_stream = self._simulator.run(inlet_stream=inlet_stream, to_id=self._first_compressor.get_id())
    boundary = self._first_compressor.get_recirculation_range(compressor_inlet_stream)
    finder = RecirculationLoopRateFinder(search_strategy=Bisect(tolerance=0.01), root_finding_strategy=self._root_finding_strategy, recirculation_rate_boundary=boundary, target_pressure=target_pressure)
    finding = finder.find(recirculation_func)
    return Solution(configuration=[Configuration(configuration_handler_id=self._recirculation_loop_id, value=finding.configuration)], failure=finding.failure)


@target("libecalc.process.process_solver.pressure_control.downstream_choke.DownstreamChokePressureControlStrategy.__init__", props=["C20"])
def DownstreamChokePressureControlStrategy_init(self, simulator, choke_configuration_handler_id):
    self._choke_configuration_handler_id = choke_configuration_handler_id
    self._simulator = simulator


@target("libecalc.process.process_solver.pressure_control.downstream_choke.DownstreamChokePressureControlStrategy.reset", props=["C20"])
def DownstreamChokePressureControlStrategy_reset(self):
    self._simulator.reset_configuration_handler(self._choke_configuration_handler_id)


@target("libecalc.process.process_solver.pressure_control.downstream_choke.DownstreamChokePressureControlStrategy.apply", props=["C20"])
def DownstreamChokePressureControlStrategy_apply(self, target_pressure, inlet_stream):

    def outlet_with_choke(cfg):
        self._simulator.apply_configuration(Configuration(configuration_handler_id=self._choke_configuration_handler_id, value=cfg))
        return self._simulator.run(inlet_stream=inlet_stream)
    baseline_config = ChokeConfiguration(delta_pressure=0.0)
    baseline_outlet_stream = outlet_with_choke(baseline_config)
    if baseline_outlet_stream.pressure_bara <= target_pressure:
        choke_config = [Configuration(configuration_handler_id=self._choke_configuration_handler_id, value=baseline_config)]
        if baseline_outlet_stream.pressure_bara == target_pressure:
            return Solution(configuration=choke_config)
        return Solution(configuration=choke_config, failure=TargetPressureUnreachableFailure(achievable_pressure_bara=baseline_outlet_stream.pressure_bara, target_pressure_bara=target_pressure.value, direction=TargetDirection.MAX_BELOW_TARGET))
    choke_finder = DownstreamChokeDeltaPressureFinder(target_pressure=target_pressure.value)
    finding = choke_finder.find(outlet_with_choke)
    return Solution(configuration=[Configuration(configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration)], failure=finding.failure)


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVPressureControlStrategy.__init__", props=["C20"])
def IndividualASVPressureControlStrategy_init(self, simulator, recirculation_loop_ids, compressors, root_finding_strategy):
    self._simulator = simulator
    self._recirculation_loop_ids = recirculation_loop_ids
    self._compressors = compressors
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVPressureControlStrategy.reset", props=["C20"])
def IndividualASVPressureControlStrategy_reset(self):
    for recirculation_loop_id in self._recirculation_loop_ids:
        self._simulator.reset_configuration_handler(recirculation_loop_id)


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVPressureControlStrategy.apply", props=["C20"])
def IndividualASVPressureControlStrategy_apply(self, target_pressure, inlet_stream):
    self.reset()
    min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(simulator=self._simulator, recirculation_loop_ids=self._recirculation_loop_ids, compressors=self._compressors, inlet_stream=inlet_stream)
    if min_pressure_bara > target_pressure.value:
        return Solution.target_pressure_unreachable(configuration=min_configurations, achievable_pressure_bara=min_pressure_bara, target_pressure_bara=target_pressure.value, direction=TargetDirection.MIN_ABOVE_TARGET)
    n_stages = len(self._recirculation_loop_ids)
    pressure_ratio_per_stage = (target_pressure.value / inlet_stream.pressure_bara) ** (1.0 / n_stages)
    configurations = []
    for i, (recirculation_loop_id, compressor) in enumerate(zip(self._recirculation_loop_ids, self._compressors)):
        stage_target_pressure = inlet_stream.pressure_bara * pressure_ratio_per_stage ** (i + 1)
        current_stream = self._simulator.run(inlet_stream=inlet_stream, to_id=compressor.get_id())
        boundary = compressor.get_recirculation_range(inlet_stream=current_stream)

        def recirculation_func(config):
            self._simulator.apply_configuration(Configuration(configuration_handler_id=recirculation_loop_id, value=config))
            compressor_inlet_stream = self._simulator.run(inlet_stream=inlet_stream, to_id=compressor.get_id())
            return compressor.propagate_stream(inlet_stream=compressor_inlet_stream)
        finder = RecirculationLoopRateFinder(search_strategy=Bisect(tolerance=0.01), root_finding_strategy=self._root_finding_strategy, recirculation_rate_boundary=boundary, target_pressure=FloatConstraint(stage_target_pressure))
        finding = finder.find(recirculation_func)
        if not finding.success:
            return Solution(configuration=configurations, failure=finding.failure)
        configuration = Configuration(configuration_handler_id=recirculation_loop_id, value=finding.configuration)
        configurations.append(configuration)
    return Solution(configuration=configurations)


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVRateControlStrategy.__init__", props=["C20"])
def IndividualASVRateControlStrategy_init(self, simulator, recirculation_loop_ids, compressors, root_finding_strategy):
    self._simulator = simulator
    self._recirculation_loop_ids = recirculation_loop_ids
    self._compressors = compressors
    self._root_finding_strategy = root_finding_strategy


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVRateControlStrategy.reset", props=["C20"])
def IndividualASVRateControlStrategy_reset(self):
    for recirculation_loop_id in self._recirculation_loop_ids:
        self._simulator.reset_configuration_handler(recirculation_loop_id)


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVRateControlStrategy._get_configurations_from_fraction", props=["C20"])
def IndividualASVRateControlStrategy_get_configurations_from_fraction(self, inlet_stream, asv_rate_fraction):
    self.reset()
    configurations = []
    for recirculation_loop_id, compressor in zip(self._recirculation_loop_ids, self._compressors):
        current_stream = self._simulator.run(inlet_stream=inlet_stream, to_id=compressor.get_id())
        boundary = compressor.get_recirculation_range(inlet_stream=current_stream)
        recirculation_rate = boundary.min + asv_rate_fraction * (boundary.max - boundary.min)
        configuration = Configuration(configuration_handler_id=recirculation_loop_id, value=RecirculationConfiguration(recirculation_rate=recirculation_rate))
        self._simulator.apply_configuration(configuration)
        configurations.append(configuration)
    return configurations


@target("libecalc.process.process_solver.pressure_control.individual_asv.IndividualASVRateControlStrategy.apply", props=["C20"])
def IndividualASVRateControlStrategy_apply(self, target_pressure, inlet_stream):
    self.reset()
    min_configurations, min_pressure_bara = compute_minimum_achievable_pressure(simulator=self._simulator, recirculation_loop_ids=self._recirculation_loop_ids, compressors=self._compressors, inlet_stream=inlet_stream)
    if min_pressure_bara > target_pressure.value:
        return Solution.target_pressure_unreachable(configuration=min_configurations, achievable_pressure_bara=min_pressure_bara, target_pressure_bara=target_pressure.value, direction=TargetDirection.MIN_ABOVE_TARGET)

    def get_outlet_stream(rate_fraction):
        test_configurations = self._get_configurations_from_fraction(inlet_stream=inlet_stream, asv_rate_fraction=rate_fraction)
        self._simulator.apply_configurations(test_configurations)
        return self._simulator.run(inlet_stream=inlet_stream)
    result_fraction = self._root_finding_strategy.find_root(boundary=Boundary(min=0.0, max=1.0), func=lambda x: get_outlet_stream(x).pressure_bara - target_pressure.value)
    configurations = self._get_configurations_from_fraction(inlet_stream=inlet_stream, asv_rate_fraction=result_fraction)
    return Solution(configuration=configurations)


@target("libecalc.process.process_solver.pressure_control.individual_asv.compute_minimum_achievable_pressure", props=["C20"])
def f_compute_minimum_achievable_pressure(simulator, recirculation_loop_ids, compressors, inlet_stream):
    configurations = []
    for loop, compressor in zip(recirculation_loop_ids, compressors):
        current_stream = simulator.run(inlet_stream=inlet_stream, to_id=compressor.get_id())
        boundary = compressor.get_recirculation_range(current_stream)
        configuration = Configuration(configuration_handler_id=loop, value=RecirculationConfiguration(recirculation_rate=boundary.max))
        simulator.apply_configuration(configuration)
        configurations.append(configuration)
    pressure_bara = simulator.run(inlet_stream=inlet_stream).pressure_bara
    for loop in recirculation_loop_ids:
        simulator.reset_configuration_handler(loop)
    return (configurations, pressure_bara)


@target("libecalc.process.process_solver.pressure_control.upstream_choke", props=["C20"])
class K95_constants:
    PRESSURE_CALCULATION_TOLERANCE = 0.001


@target("libecalc.process.process_solver.pressure_control.upstream_choke.UpstreamChokePressureControlStrategy.__init__", props=["C20"])
def UpstreamChokePressureControlStrategy_init(self, simulator, choke_configuration_handler_id, root_finding_strategy, anti_surge_strategy):
    self._choke_configuration_handler_id = choke_configuration_handler_id
    self._simulator = simulator
    self._root_finding_strategy = root_finding_strategy
    self._anti_surge_strategy = anti_surge_strategy
    self._last_anti_surge_configurations = []


@target("libecalc.process.process_solver.pressure_control.upstream_choke.UpstreamChokePressureControlStrategy.reset", props=["C20"])
def UpstreamChokePressureControlStrategy_reset(self):
    self._simulator.reset_configuration_handler(self._choke_configuration_handler_id)


@target("libecalc.process.process_solver.pressure_control.upstream_choke.UpstreamChokePressureControlStrategy.apply", props=["C20"])
def UpstreamChokePressureControlStrategy_apply(self, target_pressure, inlet_stream):
    delta_pressure_boundary = Boundary(min=PRESSURE_CALCULATION_TOLERANCE, max=inlet_stream.pressure_bara - PRESSURE_CALCULATION_TOLERANCE)
    finder = UpstreamChokeDeltaPressureFinder(root_finding_strategy=self._root_finding_strategy, target_pressure=target_pressure.value, delta_pressure_boundary=delta_pressure_boundary)

    def choke_func(config):
        self._simulator.apply_configuration(Configuration(configuration_handler_id=self._choke_configuration_handler_id, value=config))
        anti_surge_solution = self._anti_surge_strategy.apply(inlet_stream=inlet_stream)
        for anti_surge_configuration in anti_surge_solution.configuration:
            self._simulator.apply_configuration(anti_surge_configuration)
        self._last_anti_surge_configurations = anti_surge_solution.configuration
        return self._simulator.run(inlet_stream=inlet_stream)
    finding = finder.find(choke_func)
    choke_config = Configuration(configuration_handler_id=self._choke_configuration_handler_id, value=finding.configuration)
    return Solution(configuration=[*self._last_anti_surge_configurations, choke_config], failure=finding.failure)


@target("libecalc.process.process_solver.process_pipeline_runner.propagate_stream_many", props=["C20"])
def f_propagate_stream_many(process_units, inlet_stream):
    current_stream = inlet_stream
    for process_unit in process_units:
        current_stream = process_unit.propagate_stream(current_stream)
    return current_stream


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner.__init__", props=["C20"])
def ProcessPipelineRunner_init(self, configuration_handlers, units):
    self._configuration_handlers = {handler.get_id(): handler for handler in configuration_handlers}
    self._units = {unit.get_id(): unit for unit in units}


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner._apply_config_for_unit", props=["C20"])
def ProcessPipelineRunner_apply_config_for_unit(configuration_handler, configuration):
    configuration_handler.handle_configuration(configuration)


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner.apply_configuration", props=["C20"])
def ProcessPipelineRunner_apply_configuration(self, configuration):
    unit = self._get_configuration_handler(configuration.configuration_handler_id)
    self._apply_config_for_unit(configuration_handler=unit, configuration=configuration)


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner.reset_configuration_handler", props=["C20"])
def ProcessPipelineRunner_reset_configuration_handler(self, handler_id):
    self._get_configuration_handler(handler_id).reset()


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner._get_configuration_handler", props=["C20"])
def ProcessPipelineRunner_get_configuration_handler(self, configuration_handler_id):
    return self._configuration_handlers[configuration_handler_id]


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner._propagate_stream_to_id", props=["C20"])
def ProcessPipelineRunner_propagate_stream_to_id(self, inlet_stream, units, to_id):
    current_stream = inlet_stream
    for unit in units:
        if unit.get_id() == to_id:
            return (current_stream, True)
        current_stream = unit.propagate_stream(inlet_stream=current_stream)
    return (current_stream, False)


@target("libecalc.process.process_solver.process_pipeline_runner.ProcessPipelineRunner.run", props=["C20"])
def ProcessPipelineRunner_run(self, inlet_stream, to_id=None):
    if to_id is not None:
        current_stream, found = self._propagate_stream_to_id(inlet_stream=inlet_stream, units=self._units.values(), to_id=to_id)
        return current_stream
    else:
        return propagate_stream_many(process_units=list(self._units.values()), inlet_stream=inlet_stream)


@target("libecalc.process.process_solver.process_runner.ProcessRunner.apply_configurations", props=["C20"])
def ProcessRunner_apply_configurations(self, configurations):
    for configuration in configurations:
        self.apply_configuration(configuration)


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.__init__", props=["C20"])
def RecirculationLoop_init(self, mixer, splitter, configuration_handler_id=None):
    self._id = configuration_handler_id or ConfigurationHandler._create_id()
    self._mixer = mixer
    self._splitter = splitter


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.get_id", props=["C20"])
def RecirculationLoop_get_id(self):
    return self._id


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.get_mixer_id", props=["C20"])
def RecirculationLoop_get_mixer_id(self):
    return self._mixer.get_id()


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.get_splitter_id", props=["C20"])
def RecirculationLoop_get_splitter_id(self):
    return self._splitter.get_id()


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.set_recirculation_rate", props=["C20"])
def RecirculationLoop_set_recirculation_rate(self, rate):
    self._mixer.set_mix_rate(rate)
    self._splitter.set_split_rate(rate)


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.get_recirculation_rate", props=["C20"])
def RecirculationLoop_get_recirculation_rate(self):
    return self._mixer.get_mix_rate()


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.reset", props=["C20"])
def RecirculationLoop_reset(self):
    self.set_recirculation_rate(0.0)


@target("libecalc.process.process_solver.recirculation_loop.RecirculationLoop.handle_configuration", props=["C20"])
def RecirculationLoop_handle_configuration(self, configuration):
    if configuration.configuration_handler_id != self._id:
        raise ValueError()
    self.set_recirculation_rate(configuration.value.recirculation_rate)


@target("libecalc.process.process_solver.search_strategies", props=["C20"])
class K116_constants:
    CONVERGENCE_TOLERANCE = 1e-05


@target("libecalc.process.process_solver.search_strategies.DidNotConvergeError.__init__", props=["C20"])
def DidNotConvergeError_init(self, boundary, tolerance, iterations):
    self.lower_bound = boundary.min
    self.upper_bound = boundary.max
    self.tolerance = tolerance
    self.iterations = iterations
    super().__init__(title='No solution found', message=f'Did not reach convergence after maximum number of iterations: {iterations}. lower bound: {boundary.min}, upper bound: {boundary.max}, convergence_tolerance: {tolerance}.')


@target("libecalc.process.process_solver.search_strategies.Bisect.__init__", props=["C20"])
def Bisect_init(self, tolerance=CONVERGENCE_TOLERANCE, max_iterations=20):
    self._tolerance = tolerance
    self._max_iterations = max_iterations


@target("libecalc.process.process_solver.search_strategies.Bisect._bisect", props=["C20"])
def Bisect_bisect(self, boundary, probe):
    x0, x1 = (boundary.min, boundary.max)
    last_accepted = None
    for _ in range(self._max_iterations):
        x2 = (x0 + x1) / 2
        higher, accepted = probe(x2)
        if accepted:
            last_accepted = x2
        if higher:
            x0 = x2
        else:
            x1 = x2
        rel_diff = (x1 - x0) / max(abs(x0), abs(x1), 1.0)
        if rel_diff < self._tolerance:
            break
    return last_accepted


@target("libecalc.process.process_solver.search_strategies.Bisect.search", props=["C20"])
def Bisect_search(self, boundary, func):
    result = self._bisect(boundary=boundary, probe=func)
    if result is None:
        raise DidNotConvergeError(boundary=boundary, tolerance=self._tolerance, iterations=self._max_iterations)
    return result


@target("libecalc.process.process_solver.search_strategies.Bisect.lowest_true", props=["C20"])
def Bisect_lowest_true(self, boundary, predicate):
    return self._first_true(boundary, predicate, lowest=True)


@target("libecalc.process.process_solver.search_strategies.Bisect.highest_true", props=["C20"])
def Bisect_highest_true(self, boundary, predicate):
    return self._first_true(boundary, predicate, lowest=False)


@target("libecalc.process.process_solver.search_strategies.Bisect._first_true", props=["C20"])
def Bisect_first_true(self, boundary, predicate, *, lowest):
    near, far = (boundary.min, boundary.max) if lowest else (boundary.max, boundary.min)
    if predicate(near):
        return near
    if not predicate(far):
        return None

    def probe(x):
        ok = predicate(x)
        return BisectResult(higher=ok != lowest, accepted=ok)
    result = self._bisect(boundary=boundary, probe=probe)
    return result if result is not None else far


@target("libecalc.process.process_solver.search_strategies.ScipyRootFindingStrategy.__init__", props=["C20"])
def ScipyRootFindingStrategy_init(self, tolerance=CONVERGENCE_TOLERANCE, max_iterations=50):
    self._tolerance = tolerance
    self._max_iterations = max_iterations


@target("libecalc.process.process_solver.search_strategies.ScipyRootFindingStrategy.find_root", props=["C20"])
def ScipyRootFindingStrategy_find_root(self, boundary, func):
    result = root_scalar(func, bracket=(boundary.min, boundary.max), x0=boundary.min, x1=boundary.max, maxiter=self._max_iterations, method='brenth', rtol=self._tolerance)
    if not result.converged:
        raise DidNotConvergeError(boundary=boundary, tolerance=self._tolerance, iterations=self._max_iterations)
    return result.root


@target("libecalc.process.process_solver.section_assembly.recirculation_loop", props=["C20"])
def f_recirculation_loop(process_units):
    mixer, splitter = (DirectMixer(), DirectSplitter())
    loop = RecirculationLoop(mixer=mixer, splitter=splitter)
    return (loop, [mixer, *process_units, splitter])


@target("libecalc.process.process_solver.section_assembly.assemble_process_section", props=["C20"])
def f_assemble_process_section(process_units, anti_surge, pressure_control, fluid_service):
    handlers = []
    if anti_surge == AntiSurgeType.COMMON_ASV:
        loop, solver_units = recirculation_loop(process_units)
        handlers.append(loop)
    else:
        solver_units = []
        pending_units = []
        for unit in process_units:
            if isinstance(unit, (Mixer, Splitter)):
                solver_units.extend(pending_units)
                pending_units = []
                solver_units.append(unit)
                continue
            pending_units.append(unit)
            if isinstance(unit, Compressor):
                loop, assembled = recirculation_loop(pending_units)
                handlers.append(loop)
                solver_units.extend(assembled)
                pending_units = []
        solver_units.extend(pending_units)
    if pressure_control in ('UPSTREAM_CHOKE', 'DOWNSTREAM_CHOKE'):
        choke = Choke(fluid_service=fluid_service)
        handlers.append(ChokeConfigurationHandler(choke=choke))
        if pressure_control == 'UPSTREAM_CHOKE':
            solver_units = [choke, *solver_units]
        else:
            solver_units = [*solver_units, choke]
    return AssembledSection(process_units=solver_units, configuration_handlers=handlers)


@target("libecalc.process.process_solver.solver.CompressorStonewallFailure", props=["C20"])
class CompressorStonewallFailureValues:
    actual_rate_m3_per_hour = None
    maximum_rate_m3_per_hour = None


@target("libecalc.process.process_solver.solver.CompressorStonewallFailure.from_error", props=["C20"])
def CompressorStonewallFailure_from_error(cls, e):
    return cls(source_id=e.process_unit_id, actual_rate_m3_per_hour=e.actual_rate, maximum_rate_m3_per_hour=e.boundary_rate)


@target("libecalc.process.process_solver.solver.CompressorSurgeFailure", props=["C20"])
class CompressorSurgeFailureValues:
    actual_rate_m3_per_hour = None
    minimum_rate_m3_per_hour = None


@target("libecalc.process.process_solver.solver.CompressorSurgeFailure.from_error", props=["C20"])
def CompressorSurgeFailure_from_error(cls, e):
    return cls(source_id=e.process_unit_id, actual_rate_m3_per_hour=e.actual_rate, minimum_rate_m3_per_hour=e.boundary_rate)


@target("libecalc.process.process_solver.solver.ThermodynamicCalculationFailure", props=["C20"])
class ThermodynamicCalculationFailureValues:
    reason = ''


@target("libecalc.process.process_solver.solver.ConvergenceFailure", props=["C20"])
class ConvergenceFailureValues:
    reason = ''
    source_id = None
    lower_bound = None
    upper_bound = None
    tolerance = None
    iterations = None


@target("libecalc.process.process_solver.solver.ConvergenceFailure.from_error", props=["C20"])
def ConvergenceFailure_from_error(cls, e, source_id=None):
    return cls(reason=str(e), source_id=source_id, lower_bound=e.lower_bound, upper_bound=e.upper_bound, tolerance=e.tolerance, iterations=e.iterations)


@target("libecalc.process.process_solver.solver.LiquidAtInletFailure", props=["C20"])
class LiquidAtInletFailureValues:
    process_unit_id = None
    vapor_fraction = None


@target("libecalc.process.process_solver.solver.InsufficientInletPressureFailure", props=["C20"])
class InsufficientInletPressureFailureValues:
    process_unit_id = None
    inlet_pressure_bara = None
    required_delta_pressure_bara = None


@target("libecalc.process.process_solver.solver.InsufficientInletPressureFailure.from_error", props=["C20"])
def InsufficientInletPressureFailure_from_error(cls, e):
    return cls(process_unit_id=e.process_unit_id, inlet_pressure_bara=e.inlet_pressure_bara, required_delta_pressure_bara=e.required_delta_pressure_bara)


@target("libecalc.process.process_solver.solver.OfftakeExceedsInletFailure", props=["C20"])
class OfftakeExceedsInletFailureValues:
    process_unit_id = None
    available_rate = None
    offtake_rate = None


@target("libecalc.process.process_solver.solver.ProcessFailure", props=["C20"])
class ProcessFailureValues:
    reason = ''


@target("libecalc.process.process_solver.solver.process_error_to_failure", props=["C20"])
def f_process_error_to_failure(e):
    if isinstance(e, LiquidAtInletError):
        return LiquidAtInletFailure(process_unit_id=e.process_unit_id, vapor_fraction=e.vapor_fraction)
    if isinstance(e, OfftakeExceedsInletError):
        return OfftakeExceedsInletFailure(process_unit_id=e.process_unit_id, available_rate=e.available_rate, offtake_rate=e.offtake_rate)
    if isinstance(e, InsufficientInletPressureError):
        return InsufficientInletPressureFailure.from_error(e)
    if isinstance(e, CompressorThermodynamicCalculationError):
        return ThermodynamicCalculationFailure(reason=str(e))
    if isinstance(e, CompressorStonewallError):
        return CompressorStonewallFailure.from_error(e)
    if isinstance(e, CompressorSurgeError):
        return CompressorSurgeFailure.from_error(e)
    return ProcessFailure(reason=str(e))


@target("libecalc.process.process_solver.solver.TargetDirection", props=["C20"])
class TargetDirectionValues:
    MAX_BELOW_TARGET = 'max_below_target'
    MIN_ABOVE_TARGET = 'min_above_target'


@target("libecalc.process.process_solver.solver.TargetPressureUnreachableFailure", props=["C20"])
class TargetPressureUnreachableFailureValues:
    source_id = None


@target("libecalc.process.process_solver.solver.TargetPressureUnreachableFailure.with_source_id", props=["C20"])
def TargetPressureUnreachableFailure_with_source_id(self, source_id):
    return dataclasses.replace(self, source_id=source_id)


@target("libecalc.process.process_solver.solver.Solution", props=["C20"])
class SolutionValues:
    failure = None


@target("libecalc.process.process_solver.solver.Solution.success", props=["C20"])
def Solution_success(self):
    return self.failure is None


@target("libecalc.process.process_solver.solver.Solution.from_stonewall", props=["C20"])
def Solution_from_stonewall[T](cls, e, configuration):
    return Solution(configuration=configuration, failure=CompressorStonewallFailure.from_error(e))


@target("libecalc.process.process_solver.solver.Solution.from_surge", props=["C20"])
def Solution_from_surge[T](cls, e, configuration):
    return Solution(configuration=configuration, failure=CompressorSurgeFailure.from_error(e))


@target("libecalc.process.process_solver.solver.Solution.target_pressure_unreachable", props=["C20"])
def Solution_target_pressure_unreachable[T](cls, configuration, achievable_pressure_bara, target_pressure_bara, direction, source_id=None):
    return Solution(configuration=configuration, failure=TargetPressureUnreachableFailure(achievable_pressure_bara=achievable_pressure_bara, target_pressure_bara=target_pressure_bara, direction=direction, source_id=source_id))


@target("libecalc.process.process_solver.solver.Solution.get_configuration", props=["C20"])
def Solution_get_configuration(self, unit_id):
    for config in self.configuration:
        if config.configuration_handler_id == unit_id:
            return config.value
    raise ValueError()


@target("libecalc.process.process_solver.solver.Solution.combine", props=["C20"])
def Solution_combine(self, other):
    if not self.success:
        return self
    return Solution(configuration=merge_configurations(self.configuration, other.configuration), failure=other.failure)


@target("libecalc.process.process_solver.solver_assembly.assemble_solver", props=["C20"])
def f_assemble_solver(*, process_units, configuration_handlers, compressors, recirculation_loops, shaft, pipeline_name, pressure_control_type, choke=None, choke_configuration_handler=None, root_finding_strategy=None):
    if root_finding_strategy is None:
        root_finding_strategy = ScipyRootFindingStrategy()
    pipeline = ProcessPipeline(name=pipeline_name, process_pipeline_sections=[ProcessPipelineSection(process_units=process_units)], events=[], process_periods=[])
    runner = ProcessPipelineRunner(units=process_units, configuration_handlers=configuration_handlers)
    anti_surge_strategy = _resolve_anti_surge_strategy(pressure_control_type=pressure_control_type, runner=runner, compressors=compressors, recirculation_loops=recirculation_loops, root_finding_strategy=root_finding_strategy)
    pressure_control_strategy = _resolve_pressure_control_strategy(pressure_control_type=pressure_control_type, runner=runner, compressors=compressors, recirculation_loops=recirculation_loops, choke_configuration_handler=choke_configuration_handler, anti_surge_strategy=anti_surge_strategy, root_finding_strategy=root_finding_strategy)
    pipeline_section = PipelineSection(shaft_id=shaft.get_id(), process_pipeline_id=pipeline.get_id(), process_pipeline_section_id=pipeline.get_process_pipeline_sections()[0].get_id(), runner=runner, anti_surge_strategy=anti_surge_strategy, pressure_control_strategy=pressure_control_strategy, root_finding_strategy=root_finding_strategy, speed_boundary=shaft.get_speed_boundary())
    solver = PipelineSectionSolver(pipeline_section)
    return ProcessSolverSystem(solver=solver, pipeline_section=pipeline_section, runner=runner, pipeline=pipeline, shaft=shaft, compressors=tuple(compressors), recirculation_loops=tuple(recirculation_loops), choke=choke)


@target("libecalc.process.process_solver.solver_assembly._resolve_anti_surge_strategy", props=["C20"])
def f_resolve_anti_surge_strategy(*, pressure_control_type, runner, compressors, recirculation_loops, root_finding_strategy):
    match pressure_control_type:
        case 'COMMON_ASV':
            return CommonASVAntiSurgeStrategy(simulator=runner, root_finding_strategy=root_finding_strategy, first_compressor=compressors[0], recirculation_loop_id=recirculation_loops[0].get_id())
        case 'DOWNSTREAM_CHOKE' | 'UPSTREAM_CHOKE' | 'INDIVIDUAL_ASV_RATE' | 'INDIVIDUAL_ASV_PRESSURE':
            return IndividualASVAntiSurgeStrategy(simulator=runner, recirculation_loop_ids=[loop.get_id() for loop in recirculation_loops], compressors=compressors)
        case _:
            assert_never(pressure_control_type)


@target("libecalc.process.process_solver.solver_assembly._resolve_pressure_control_strategy", props=["C20"])
def f_resolve_pressure_control_strategy(*, pressure_control_type, runner, compressors, recirculation_loops, choke_configuration_handler, anti_surge_strategy, root_finding_strategy):
    match pressure_control_type:
        case 'DOWNSTREAM_CHOKE':
            return DownstreamChokePressureControlStrategy(simulator=runner, choke_configuration_handler_id=choke_configuration_handler.get_id())
        case 'UPSTREAM_CHOKE':
            return UpstreamChokePressureControlStrategy(simulator=runner, choke_configuration_handler_id=choke_configuration_handler.get_id(), root_finding_strategy=root_finding_strategy, anti_surge_strategy=anti_surge_strategy)
        case 'COMMON_ASV':
            return CommonASVPressureControlStrategy(simulator=runner, recirculation_loop_id=recirculation_loops[0].get_id(), first_compressor=compressors[0], root_finding_strategy=root_finding_strategy)
        case 'INDIVIDUAL_ASV_RATE':
            return IndividualASVRateControlStrategy(simulator=runner, recirculation_loop_ids=[loop.get_id() for loop in recirculation_loops], compressors=compressors, root_finding_strategy=root_finding_strategy)
        case 'INDIVIDUAL_ASV_PRESSURE':
            return IndividualASVPressureControlStrategy(simulator=runner, recirculation_loop_ids=[loop.get_id() for loop in recirculation_loops], compressors=compressors, root_finding_strategy=root_finding_strategy)
        case _:
            assert_never(pressure_control_type)


@target("libecalc.process.process_solver.stream_constraint", props=["C20"])
class K154_constants:
    EPSILON = 1e-05


@target("libecalc.process.process_solver.stream_constraint.PressureStreamConstraint.__init__", props=["C20"])
def PressureStreamConstraint_init(self, target_pressure):
    self._target_pressure = target_pressure


@target("libecalc.process.process_solver.stream_constraint.PressureStreamConstraint.check", props=["C20"])
def PressureStreamConstraint_check(self, stream):
    if stream is None:
        return False
    return self._target_pressure - EPSILON <= stream.pressure_bara <= self._target_pressure + EPSILON


@target("libecalc.common.numeric_methods", props=["C20"])
class K157_constants:
    CONVERGENCE_TOLERANCE = 1e-05
    MAXIMUM_NUMBER_OF_ITERATIONS = 50
    EPSILON_LARGE = 0.01
    OSCILL_FLIP_REQ = 2
    STEP_DOWN = 0.5
    STEP_UP = 1.5
    BETA_MIN = 0.1
    BETA_MAX = 1.0
    STABLE_ITERS = 3


@target("libecalc.common.numeric_methods.DampState", props=["C20"])
class DampStateValues:
    beta = 1.0
    delta_prev = None
    flip_counter = 0
    stable_counter = 0


@target("libecalc.common.numeric_methods.adaptive_pressure_update", props=["C20"])
def f_adaptive_pressure_update(*, p_prev, p_raw, state):
    delta = p_raw - p_prev
    large_step = abs(delta) > EPSILON_LARGE * p_prev
    flip = state.delta_prev is not None and delta * state.delta_prev < 0.0
    if flip and large_step:
        state.flip_counter += 1
    else:
        state.flip_counter = 0
    if state.flip_counter >= OSCILL_FLIP_REQ:
        state.beta = max(BETA_MIN, state.beta * STEP_DOWN)
        state.stable_counter = 0
    else:
        state.stable_counter += 1
        if state.stable_counter >= STABLE_ITERS:
            state.beta = min(BETA_MAX, state.beta * STEP_UP)
            state.stable_counter = 0
    p_next = p_prev + state.beta * delta
    state.delta_prev = delta
    return (p_next, state)


@target("libecalc.common.numeric_methods.find_root", props=["C20"])
def f_find_root(lower_bound, upper_bound, func, relative_convergence_tolerance=CONVERGENCE_TOLERANCE, maximum_number_of_iterations=MAXIMUM_NUMBER_OF_ITERATIONS):
    try:
        result = root_scalar(func, bracket=(lower_bound, upper_bound), x0=lower_bound, x1=upper_bound, maxiter=maximum_number_of_iterations, method='brenth', rtol=relative_convergence_tolerance)
        if not result.converged:
            msg = f'Did not reach convergence after maximum number of iterations: {maximum_number_of_iterations}. root given last iteration: {result.root}, convergence_tolerance: {relative_convergence_tolerance}. on interval [{lower_bound},{upper_bound}]. func: {func}'
        return result.root
    except Exception as e:
        pass
    return secant_method(x0=lower_bound, x1=upper_bound, func=func, convergence_tolerance=relative_convergence_tolerance, maximum_number_of_iterations=maximum_number_of_iterations)


@target("libecalc.common.numeric_methods.secant_method", props=["C20"])
def f_secant_method(x0, x1, func, convergence_tolerance=CONVERGENCE_TOLERANCE, maximum_number_of_iterations=MAXIMUM_NUMBER_OF_ITERATIONS, bounded_to_input_x_interval=True):
    f = func
    minimum_x_value = min(x0, x1)
    maximum_x_value = max(x0, x1)

    def limit_to_bounds(x, x_min, x_max):
        return max(min(x, x_max), x_min) if bounded_to_input_x_interval else x
    x2 = np.nan
    i = 0
    f0 = 0
    f1 = 1
    rel_diff = 100.0
    while abs(rel_diff) > convergence_tolerance and i <= maximum_number_of_iterations and (f1 != f0):
        f0 = f(x0)
        f1 = f(x1)
        x2 = x1 - f1 * (x1 - x0) / float(f1 - f0)
        x2 = limit_to_bounds(x2, minimum_x_value, maximum_x_value)
        x0, x1 = (x1, x2)
        i += 1
        rel_diff = 0 if x0 == x1 else abs(x1 - x0) / max(abs(x0), abs(x1))
    if i > maximum_number_of_iterations:
        msg = f'Did not reach convergence after maximum number of iterations: {maximum_number_of_iterations}. x0: {x0}, x1: {x1}, convergence_tolerance: {convergence_tolerance}. bounded to input interval: {bounded_to_input_x_interval} on interval [{minimum_x_value},{maximum_x_value}]. func: {func}'
    return x2


@target("libecalc.common.numeric_methods.maximize_x_given_boolean_condition_function", props=["C20"])
def f_maximize_x_given_boolean_condition_function(x_min, x_max, bool_func, convergence_tolerance=CONVERGENCE_TOLERANCE, maximum_number_of_iterations=MAXIMUM_NUMBER_OF_ITERATIONS):
    x0, x1 = (x_min, x_max)
    x2 = (x0 + x1) / 2
    i = 0
    rel_diff = 100.0
    while abs(rel_diff) > convergence_tolerance and i <= maximum_number_of_iterations:
        x2 = (x0 + x1) / 2
        if bool_func(x2):
            x0, x1 = (x2, x1)
        else:
            x0, x1 = (x0, x2)
        rel_diff = 0 if x0 == x1 else abs(x1 - x0) / max(abs(x0), abs(x1))
        i += 1
    if i > maximum_number_of_iterations:
        msg = f'Did not reach convergence after maximum number of iterations: {maximum_number_of_iterations}. x_min: {x_min}, x_max: {x_max}, convergence_tolerance: {convergence_tolerance}. bool_func: {bool_func}'
    return x0
