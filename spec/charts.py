# Reference equations (parsed by the checker, never executed).
import numpy as np
from copy import deepcopy
from libecalc.common.chart_type import ChartType
from libecalc.common.errors.ecalc_validation_error import EcalcValidationException, ProcessChartTypeValidationException
from libecalc.common.errors.exceptions import IllegalStateException
from libecalc.common.list.list_utils import array_to_list
from libecalc.common.numeric_methods import maximize_x_given_boolean_condition_function
from libecalc.domain.process.value_objects.chart.chart_area_flag import ChartAreaFlag
from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator
from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart
from libecalc.domain.process.value_objects.chart.compressor.generic_chart_data import UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_HEADS, UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_RATES, UNIFIED_GENERIC_CHART_CURVE_MINIMUM_SPEED_HEADS, UNIFIED_GENERIC_CHART_CURVE_MINIMUM_SPEED_RATES
from libecalc.domain.process.value_objects.chart.compressor.types import CompressorChartHeadEfficiencyResultSinglePoint, CompressorChartResult
from libecalc.presentation.yaml.mappers.charts.generic_from_design_point_chart_data import GenericFromDesignPointChartData
from scipy.interpolate import interp1d
from shapely.geometry import LineString, Point
EPSILON = 1e-05
NUMERICAL_TOLERANCE = 1e-07


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.__init__", props=["C24"])
def ChartCurve_init(self, rate_actual_m3_hour, polytropic_head_joule_per_kg, efficiency_fraction, speed_rpm):
    self.speed_rpm = speed_rpm
    if not all((0 <= efficiency <= 1 for efficiency in efficiency_fraction)):
        raise EcalcValidationException('Efficiency fraction should be between 0 and 1')
    if not len(rate_actual_m3_hour) == len(polytropic_head_joule_per_kg) == len(efficiency_fraction):
        raise EcalcValidationException('All chart curve data must have equal number of points')
    if len(rate_actual_m3_hour) < 2:
        raise EcalcValidationException('A chart curve can not be defined by a single point. At least two points must be given.')
    array = np.asarray([rate_actual_m3_hour, polytropic_head_joule_per_kg, efficiency_fraction]).T
    array_sorted = array[array[:, 0].argsort()]
    self.rate_actual_m3_hour = list(array_sorted[:, 0])
    self.polytropic_head_joule_per_kg = list(array_sorted[:, 1])
    self.efficiency_fraction = list(array_sorted[:, 2])
    if len(set(self.rate_actual_m3_hour)) != len(self.rate_actual_m3_hour):
        duplicate_rates = {x for x in self.rate_actual_m3_hour if self.rate_actual_m3_hour.count(x) > 1}
    if not np.all(np.diff(np.asarray(self.polytropic_head_joule_per_kg)) <= 0):
        heads = self.polytropic_head_joule_per_kg
        rates = self.rate_actual_m3_hour


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate", props=["C24"])
def ChartCurve_rate(self):
    return self.rate_actual_m3_hour


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.head", props=["C24"])
def ChartCurve_head(self):
    return self.polytropic_head_joule_per_kg


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.efficiency", props=["C24"])
def ChartCurve_efficiency(self):
    return self.efficiency_fraction


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.speed", props=["C24"])
def ChartCurve_speed(self):
    return self.speed_rpm


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate_values", props=["C24"])
def ChartCurve_rate_values(self):
    return np.asarray(self.rate)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.head_values", props=["C24"])
def ChartCurve_head_values(self):
    return np.asarray(self.head)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.efficiency_values", props=["C24"])
def ChartCurve_efficiency_values(self):
    return np.asarray(self.efficiency)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.is_100_percent_efficient", props=["C24"])
def ChartCurve_is_100_percent_efficient(self):
    return np.all(self.efficiency_values == 1)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.minimum_rate", props=["C24"])
def ChartCurve_minimum_rate(self):
    return self.rate[0]


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.maximum_rate", props=["C24"])
def ChartCurve_maximum_rate(self):
    return self.rate[-1]


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.efficiency_as_function_of_rate", props=["C24"])
def ChartCurve_efficiency_as_function_of_rate(self):
    return interp1d(x=self.rate_values, y=self.efficiency_values, fill_value=(self.efficiency_values[0], self.efficiency_values[-1]), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.head_as_function_of_rate", props=["C24"])
def ChartCurve_head_as_function_of_rate(self):
    return interp1d(x=self.rate_values, y=self.head_values, fill_value=(self.head_values[0], self.head_values[-1]), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate_as_function_of_head", props=["C24"])
def ChartCurve_rate_as_function_of_head(self):
    return interp1d(x=self.head_values, y=self.rate_values, fill_value=(self.rate_values[-1], self.rate_values[0]), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate_as_function_of_head_extrapolate", props=["C24"])
def ChartCurve_rate_as_function_of_head_extrapolate(self):
    return interp1d(x=self.head_values, y=self.rate_values, fill_value='extrapolate', bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate_head_and_efficiency_at_minimum_rate", props=["C24"])
def ChartCurve_rate_head_and_efficiency_at_minimum_rate(self):
    return (self.rate[0], self.head[0], self.efficiency[0])


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.rate_head_and_efficiency_at_maximum_rate", props=["C24"])
def ChartCurve_rate_head_and_efficiency_at_maximum_rate(self):
    return (self.rate[-1], self.head[-1], self.efficiency[-1])


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.get_distance_and_efficiency_from_closest_point_on_curve", props=["C24"])
def ChartCurve_get_distance_and_efficiency_from_closest_point_on_curve(self, rate, head):
    head_linestring = LineString(list(zip(self.rate_values, self.head_values)))
    p = Point(rate, head)
    distance = p.distance(head_linestring)
    closest_interpolated_point = head_linestring.interpolate(head_linestring.project(p))
    if closest_interpolated_point.y < p.y:
        distance = -distance
    efficiency = float(self.efficiency_as_function_of_rate(closest_interpolated_point.x))
    return (distance, efficiency)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.deep_copy", props=["C24"])
def ChartCurve_deep_copy(self):
    return deepcopy(self)


@target("libecalc.domain.process.value_objects.chart.base.ChartCurve.adjust_for_control_margin", props=["C24"])
def ChartCurve_adjust_for_control_margin(self, control_margin):
    if control_margin is None:
        return self.deep_copy()
    if control_margin == 0:
        return self.deep_copy()

    def _get_new_point(x, y, new_x_value):
        return interp1d(x=x, y=y, fill_value=(np.min(y), np.max(y)), bounds_error=False, assume_sorted=False)(new_x_value)
    adjust_minimum_rate_by = (np.max(self.rate) - np.min(self.rate)) * control_margin
    new_minimum_rate = np.min(self.rate) + adjust_minimum_rate_by
    rate_head_efficiency_array = np.vstack((self.rate, self.head, self.efficiency))
    rate_head_efficiency_array = rate_head_efficiency_array[:, rate_head_efficiency_array[0, :] > new_minimum_rate]
    new_rate_head_efficiency_point = [new_minimum_rate, _get_new_point(x=self.rate, y=self.head, new_x_value=new_minimum_rate), _get_new_point(x=self.rate, y=self.efficiency, new_x_value=new_minimum_rate)]
    rate_head_efficiency_array = np.c_[new_rate_head_efficiency_point, rate_head_efficiency_array]
    new_chart_curve = deepcopy(self)
    new_chart_curve.rate_actual_m3_hour = rate_head_efficiency_array[0, :].tolist()
    new_chart_curve.polytropic_head_joule_per_kg = rate_head_efficiency_array[1, :].tolist()
    new_chart_curve.efficiency_fraction = rate_head_efficiency_array[2, :].tolist()
    return new_chart_curve


@target("libecalc.domain.process.value_objects.chart.chart.Chart.__init__", props=["C24"])
def Chart_init(self, chart_data):
    self._chart_data = chart_data
    self.__validate()


@target("libecalc.domain.process.value_objects.chart.chart.Chart.__validate", props=["C24"])
def Chart_validate(self):
    self.__check_that_there_is_at_least_one_chart_curve()


@target("libecalc.domain.process.value_objects.chart.chart.Chart.__check_that_there_is_at_least_one_chart_curve", props=["C24"])
def Chart_check_that_there_is_at_least_one_chart_curve(self):
    if self._chart_data.origin_of_chart_data is ChartType.GENERIC_FROM_INPUT:
        return
    if len(self.curves) == 0:
        msg = 'At least one chart curve must be given to define a compressor performance chart.'
        raise ProcessChartTypeValidationException(message=msg)


@target("libecalc.domain.process.value_objects.chart.chart.Chart.chart_data", props=["C24"])
def Chart_chart_data(self):
    return self._chart_data


@target("libecalc.domain.process.value_objects.chart.chart.Chart.curves", props=["C24"])
def Chart_curves(self):
    return self._chart_data.get_adjusted_curves()


@target("libecalc.domain.process.value_objects.chart.chart.Chart.is_variable_speed", props=["C24"])
def Chart_is_variable_speed(self):
    return len(self.curves) > 1


@target("libecalc.domain.process.value_objects.chart.chart.Chart.speed_values", props=["C24"])
def Chart_speed_values(self):
    return [x.speed for x in self.curves]


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_speed_curve", props=["C24"])
def Chart_minimum_speed_curve(self):
    return self.curves[0]


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_speed_curve", props=["C24"])
def Chart_maximum_speed_curve(self):
    return self.curves[-1]


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_speed", props=["C24"])
def Chart_minimum_speed(self):
    return self.minimum_speed_curve.speed


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_speed", props=["C24"])
def Chart_maximum_speed(self):
    return self.maximum_speed_curve.speed


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_rate", props=["C24"])
def Chart_minimum_rate(self):
    return np.min([x.minimum_rate for x in self.curves])


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_rate", props=["C24"])
def Chart_maximum_rate(self):
    return np.max([x.maximum_rate for x in self.curves])


@target("libecalc.domain.process.value_objects.chart.chart.Chart.is_100_percent_efficient", props=["C24"])
def Chart_is_100_percent_efficient(self):
    return np.all([x.is_100_percent_efficient for x in self.curves])


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_head_as_function_of_rate", props=["C24"])
def Chart_minimum_head_as_function_of_rate(self):
    if self.maximum_speed_curve.maximum_rate > self.minimum_speed_curve.rate[-1]:
        rate_at_top_of_stone_wall, head_at_top_of_stone_wall, _ = self.maximum_speed_curve.rate_head_and_efficiency_at_maximum_rate
        rate_values = np.append(self.minimum_speed_curve.rate, rate_at_top_of_stone_wall)
        head_values = np.append(self.minimum_speed_curve.head, head_at_top_of_stone_wall)
    else:
        rate_values = self.minimum_speed_curve.rate
        head_values = self.minimum_speed_curve.head
    return interp1d(x=rate_values, y=head_values, fill_value=(head_values[0], head_values[-1]), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_rate_as_function_of_head", props=["C24"])
def Chart_minimum_rate_as_function_of_head(self):
    head_at_min_rate_at_maximum_speed = self.maximum_speed_curve.head_values[0]
    rate_at_min_rate_at_maximum_speed = self.maximum_speed_curve.rate_values[0]
    head_at_min_rate_at_minimum_speed = self.minimum_speed_curve.head_values[0]
    rate_at_min_rate_at_minimum_speed = self.minimum_speed_curve.rate_values[0]
    return interp1d(x=[head_at_min_rate_at_minimum_speed, head_at_min_rate_at_maximum_speed], y=[rate_at_min_rate_at_minimum_speed, rate_at_min_rate_at_maximum_speed], fill_value=(rate_at_min_rate_at_minimum_speed, rate_at_min_rate_at_maximum_speed), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_rate_as_function_of_head_no_choking", props=["C24"])
def Chart_minimum_rate_as_function_of_head_no_choking(self):
    head_at_min_rate_at_maximum_speed = self.maximum_speed_curve.head_values[0]
    rate_at_min_rate_at_maximum_speed = self.maximum_speed_curve.rate_values[0]
    heads_at_minimum_speed = self.minimum_speed_curve.head_values[::-1]
    rates_at_minimum_speed = self.minimum_speed_curve.rate_values[::-1]
    head_values_no_choke = list(heads_at_minimum_speed) + [head_at_min_rate_at_maximum_speed]
    volume_rate_values_no_choke = list(rates_at_minimum_speed) + [rate_at_min_rate_at_maximum_speed]
    return interp1d(x=head_values_no_choke, y=volume_rate_values_no_choke, bounds_error=False, fill_value=(volume_rate_values_no_choke[0], volume_rate_values_no_choke[-1]))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_rate_as_function_of_head", props=["C24"])
def Chart_maximum_rate_as_function_of_head(self):
    sorted_index = self.maximum_speed_curve.head_values.argsort()
    heads_at_maximum_speed = self.maximum_speed_curve.head_values[sorted_index]
    rates_at_maximum_speed = self.maximum_speed_curve.rate_values[sorted_index]
    return interp1d(x=heads_at_maximum_speed, y=rates_at_maximum_speed, bounds_error=False, fill_value=(rates_at_maximum_speed[0], rates_at_maximum_speed[-1]))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_rate_as_function_of_head_no_choking", props=["C24"])
def Chart_maximum_rate_as_function_of_head_no_choking(self):
    min_speed_rate_at_maximum_rate, min_speed_head_at_maximum_rate, _ = self.minimum_speed_curve.rate_head_and_efficiency_at_maximum_rate
    sorted_index = self.maximum_speed_curve.head_values.argsort()
    heads_at_maximum_speed = self.maximum_speed_curve.head_values[sorted_index]
    rates_at_maximum_speed = self.maximum_speed_curve.rate_values[sorted_index]
    head_values_maximum_speed_plus_stone_wall_lower_speed_value = [min_speed_head_at_maximum_rate] + list(heads_at_maximum_speed)
    rate_values_maximum_speed_plus_stone_wall_lower_speed_value = [min_speed_rate_at_maximum_rate] + list(rates_at_maximum_speed)
    return interp1d(x=head_values_maximum_speed_plus_stone_wall_lower_speed_value, y=rate_values_maximum_speed_plus_stone_wall_lower_speed_value, bounds_error=False, fill_value=(rate_values_maximum_speed_plus_stone_wall_lower_speed_value[0], rate_values_maximum_speed_plus_stone_wall_lower_speed_value[-1]))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_head_as_function_of_rate", props=["C24"])
def Chart_maximum_head_as_function_of_rate(self):
    return interp1d(x=self.maximum_speed_curve.rate_values, y=self.maximum_speed_curve.head_values, fill_value=(self.maximum_speed_curve.head_values[0], self.maximum_speed_curve.head_values[-1]), bounds_error=False)


@target("libecalc.domain.process.value_objects.chart.chart.Chart.minimum_rate_as_function_of_speed", props=["C24"])
def Chart_minimum_rate_as_function_of_speed(self):
    minimum_rate_for_speed_values = [x.minimum_rate for x in self.curves]
    return interp1d(x=self.speed_values, y=minimum_rate_for_speed_values, bounds_error=False, fill_value=(minimum_rate_for_speed_values[0], minimum_rate_for_speed_values[-1]))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.maximum_rate_as_function_of_speed", props=["C24"])
def Chart_maximum_rate_as_function_of_speed(self):
    maximum_rate_for_speed_values = [x.maximum_rate for x in self.curves]
    return interp1d(x=self.speed_values, y=maximum_rate_for_speed_values, bounds_error=False, fill_value=(maximum_rate_for_speed_values[0], maximum_rate_for_speed_values[-1]))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.efficiency_as_function_of_rate_and_head", props=["C24"])
def Chart_efficiency_as_function_of_rate_and_head(self, rates, heads):
    if self.is_100_percent_efficient:
        return np.ones_like(rates)
    efficiencies = np.full_like(rates, fill_value=1.0, dtype=float)
    mean_rates = np.mean([value for curve in self.curves for value in curve.rate])
    std_rates = np.std([value for curve in self.curves for value in curve.rate])
    mean_heads = np.mean([value for curve in self.curves for value in curve.head])
    std_heads = np.std([value for curve in self.curves for value in curve.head])
    if std_rates == 0 or std_heads == 0:
        std_rates = 1
        std_heads = 1
    scaled_heads = (heads - mean_heads) / std_heads
    scaled_rates = (rates - mean_rates) / std_rates
    scaled_chart_curves = [ChartCurve(speed_rpm=curve.speed, rate_actual_m3_hour=array_to_list((curve.rate_values - mean_rates) / std_rates), polytropic_head_joule_per_kg=array_to_list((curve.head_values - mean_heads) / std_heads), efficiency_fraction=curve.efficiency) for curve in self.curves]
    for i, rate in enumerate(scaled_rates):
        q = rate
        h = scaled_heads[i]
        distance_above = np.inf
        distance_below = -np.inf
        efficiency_above = 1
        efficiency_below = 1
        for scaled_chart_curve in scaled_chart_curves:
            distance, efficiency = ChartCurve(rate_actual_m3_hour=scaled_chart_curve.rate_actual_m3_hour, polytropic_head_joule_per_kg=scaled_chart_curve.polytropic_head_joule_per_kg, efficiency_fraction=scaled_chart_curve.efficiency_fraction, speed_rpm=scaled_chart_curve.speed_rpm).get_distance_and_efficiency_from_closest_point_on_curve(rate=q, head=h)
            if 0 <= distance < distance_above:
                distance_above, efficiency_above = (distance, efficiency)
            elif distance_below < distance < 0:
                distance_below, efficiency_below = (distance, efficiency)
        alpha = self._get_alpha_from_distances(distance_above=distance_above, distance_below=distance_below)
        efficiency = alpha * efficiency_below + (1.0 - alpha) * efficiency_above
        efficiencies[i] = efficiency
    return efficiencies


@target("libecalc.domain.process.value_objects.chart.chart.Chart._get_alpha_from_distances", props=["C24"])
def Chart_get_alpha_from_distances(distance_above, distance_below):
    if np.isinf(distance_above):
        return 1.0
    elif np.isinf(distance_below):
        return 0.0
    else:
        return abs(distance_above) / (abs(distance_above) + abs(distance_below))


@target("libecalc.domain.process.value_objects.chart.chart.Chart.closest_curve_below_speed", props=["C24"])
def Chart_closest_curve_below_speed(self, speed):
    filtered_curves = list(filter(lambda x: x.speed <= speed, self.curves[::-1]))
    if any(filtered_curves):
        return filtered_curves[0]
    else:
        return None


@target("libecalc.domain.process.value_objects.chart.chart.Chart.closest_curve_above_speed", props=["C24"])
def Chart_closest_curve_above_speed(self, speed):
    filtered_curves = list(filter(lambda x: x.speed >= speed, self.curves))
    if any(filtered_curves):
        return filtered_curves[0]
    else:
        return None


@target("libecalc.domain.process.value_objects.chart.chart.Chart.get_curve_by_speed", props=["C24"])
def Chart_get_curve_by_speed(self, speed):
    filtered_curves = list(filter(lambda x: x.speed == speed, self.curves))
    if any(filtered_curves):
        return filtered_curves[0]
    else:
        return None


@target("libecalc.domain.process.value_objects.chart.chart_area_flag.ChartAreaFlag", props=["C24"])
class ChartAreaFlagValues:
    INTERNAL_POINT = 'INTERNAL_POINT'
    BELOW_MINIMUM_FLOW_RATE = 'BELOW_MINIMUM_FLOW_RATE'
    BELOW_MINIMUM_HEAD = 'BELOW_MINIMUM_HEAD'
    BELOW_MINIMUM_SPEED = 'BELOW_MINIMUM_SPEED'
    ABOVE_MAXIMUM_FLOW_RATE = 'ABOVE_MAXIMUM_FLOW_RATE'
    ABOVE_MAXIMUM_HEAD = 'ABOVE_MAXIMUM_HEAD'
    ABOVE_MAXIMUM_SPEED = 'ABOVE_MAXIMUM_SPEED'
    BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE = 'BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE'
    BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE = 'BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE'
    NOT_CALCULATED = 'NOT_CALCULATED'
    NO_FLOW_RATE = 'NO_FLOW_RATE'


@target("libecalc.domain.process.value_objects.chart.compressor.chart_creator.CompressorChartCreator.from_rate_and_head_values", props=["C24"])
def CompressorChartCreator_from_rate_and_head_values(actual_volume_rates_m3_per_hour, heads_joule_per_kg, polytropic_efficiency=1):
    maximum_rate_on_maximum_speed_curve_unified = UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_RATES[-1]
    maximum_head_on_maximum_speed_curve_unified = UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_HEADS[0]
    minimum_head_on_maximum_speed_curve_unified = UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_HEADS[-1]
    maximum_rate_on_minimum_speed_curve_unified = UNIFIED_GENERIC_CHART_CURVE_MINIMUM_SPEED_RATES[-1]
    maximum_change_in_rate_unified = maximum_rate_on_maximum_speed_curve_unified - maximum_rate_on_minimum_speed_curve_unified
    maximum_change_in_head_unified = maximum_head_on_maximum_speed_curve_unified - minimum_head_on_maximum_speed_curve_unified
    maximum_actual_rate = np.max(actual_volume_rates_m3_per_hour)
    maximum_head_value = np.max(heads_joule_per_kg)
    scaling_rate_to_unified = np.divide(maximum_actual_rate, maximum_rate_on_maximum_speed_curve_unified)
    scaling_head_to_unified = np.divide(maximum_head_value, maximum_head_on_maximum_speed_curve_unified)
    initial_design_head_unified = 1
    initial_design_rate_unified = 1

    def _create_compressor_chart_result_from_unified_design_point(unified_rate, unified_head):
        return CompressorChart(CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=unified_rate * scaling_rate_to_unified, design_head_joule_per_kg=unified_head * scaling_head_to_unified, polytropic_efficiency=polytropic_efficiency)).evaluate_capacity_and_extrapolate_below_minimum(actual_volume_rates=np.asarray(actual_volume_rates_m3_per_hour, dtype=np.float64), heads=np.asarray(heads_joule_per_kg, dtype=np.float64), extrapolate_heads_below_minimum=False)
    initial_compressor_chart_result = _create_compressor_chart_result_from_unified_design_point(unified_rate=initial_design_rate_unified, unified_head=initial_design_head_unified)
    design_rate_unified = initial_design_rate_unified
    design_head_unified = initial_design_head_unified
    maximum_design_rate_unified = initial_design_rate_unified + maximum_change_in_rate_unified
    maximum_design_head_unified = initial_design_head_unified + maximum_change_in_head_unified
    if initial_compressor_chart_result.any_points_below_stone_wall:
        design_rate_unified = maximum_design_rate_unified - maximize_x_given_boolean_condition_function(x_min=0, x_max=maximum_design_rate_unified - design_rate_unified, bool_func=lambda x: not _create_compressor_chart_result_from_unified_design_point(unified_rate=maximum_design_rate_unified - x, unified_head=design_head_unified).any_points_below_stone_wall)
        while _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=design_head_unified).any_points_above_maximum_speed_curve:
            design_rate_unified = design_rate_unified + 0.01
            design_head_unified = maximize_x_given_boolean_condition_function(x_min=design_head_unified, x_max=maximum_design_head_unified, bool_func=lambda x: not _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=x).any_points_below_stone_wall)
    elif initial_compressor_chart_result.any_points_above_maximum_speed_curve:
        design_head_unified = maximize_x_given_boolean_condition_function(x_min=design_head_unified, x_max=maximum_design_head_unified, bool_func=lambda x: not _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=x).any_points_below_stone_wall)
        if not _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=design_head_unified).any_points_above_maximum_speed_curve:
            change_in_design_head_unified = maximize_x_given_boolean_condition_function(x_min=0, x_max=maximum_change_in_head_unified, bool_func=lambda x: not _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=design_head_unified - x).any_points_above_maximum_speed_curve)
            design_rate_unified = design_rate_unified - change_in_design_head_unified
        else:
            while _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=design_head_unified).any_points_above_maximum_speed_curve:
                design_rate_unified = design_rate_unified + 0.01
                design_head_unified = maximize_x_given_boolean_condition_function(x_min=design_head_unified, x_max=maximum_design_head_unified, bool_func=lambda x: not _create_compressor_chart_result_from_unified_design_point(unified_rate=design_rate_unified, unified_head=x).any_points_below_stone_wall)
    design_rate, design_head = (design_rate_unified * scaling_rate_to_unified, design_head_unified * scaling_head_to_unified)
    return CompressorChartCreator.from_rate_and_head_design_point(design_actual_rate_m3_per_hour=design_rate, design_head_joule_per_kg=design_head, polytropic_efficiency=polytropic_efficiency, origin_of_chart_data=ChartType.GENERIC_FROM_INPUT)


@target("libecalc.domain.process.value_objects.chart.compressor.chart_creator.CompressorChartCreator.from_rate_and_head_design_point", props=["C24"])
def CompressorChartCreator_from_rate_and_head_design_point(design_actual_rate_m3_per_hour, design_head_joule_per_kg, polytropic_efficiency, origin_of_chart_data=ChartType.GENERIC_FROM_DESIGN_POINT):
    max_speed_volume_rates = design_actual_rate_m3_per_hour * UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_RATES
    min_speed_volume_rates = design_actual_rate_m3_per_hour * UNIFIED_GENERIC_CHART_CURVE_MINIMUM_SPEED_RATES
    max_speed_heads = design_head_joule_per_kg * UNIFIED_GENERIC_CHART_CURVE_MAXIMUM_SPEED_HEADS
    min_speed_heads = design_head_joule_per_kg * UNIFIED_GENERIC_CHART_CURVE_MINIMUM_SPEED_HEADS
    return GenericFromDesignPointChartData(curves=[ChartCurve(rate_actual_m3_hour=list(min_speed_volume_rates), polytropic_head_joule_per_kg=list(min_speed_heads), efficiency_fraction=[polytropic_efficiency] * len(min_speed_volume_rates), speed_rpm=75), ChartCurve(rate_actual_m3_hour=list(max_speed_volume_rates), polytropic_head_joule_per_kg=list(max_speed_heads), efficiency_fraction=[polytropic_efficiency] * len(max_speed_volume_rates), speed_rpm=105)], design_head=design_head_joule_per_kg, design_rate=design_actual_rate_m3_per_hour, origin_of_chart_data=origin_of_chart_data)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart", props=["C24"])
class K50_constants:
    EPSILON = 1e-05
    NUMERICAL_TOLERANCE = 1e-07


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.get_maximum_rate", props=["C24"])
def CompressorChart_get_maximum_rate(self, heads, extrapolate_heads_below_minimum):
    if extrapolate_heads_below_minimum:
        maximum_rate_function = self.maximum_rate_as_function_of_head
    else:
        maximum_rate_function = self.maximum_rate_as_function_of_head_no_choking
    return maximum_rate_function(heads)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.evaluate_capacity_and_extrapolate_below_minimum", props=["C24"])
def CompressorChart_evaluate_capacity_and_extrapolate_below_minimum(self, actual_volume_rates, heads, extrapolate_heads_below_minimum):
    actual_volume_rates = np.atleast_1d(actual_volume_rates)
    heads = np.atleast_1d(heads)
    minimum_flow_function = self.minimum_rate_as_function_of_head if extrapolate_heads_below_minimum else self.minimum_rate_as_function_of_head_no_choking
    minimum_rates = minimum_flow_function(heads)
    rate_has_recirc = actual_volume_rates < minimum_rates
    asv_corrected_rates = np.fmax(minimum_rates, actual_volume_rates)
    minimum_head_values = self.minimum_head_as_function_of_rate(asv_corrected_rates)
    if extrapolate_heads_below_minimum:
        pressure_is_choked = heads < minimum_head_values
        choke_corrected_heads = np.fmax(minimum_head_values, heads)
        pressure_is_below_minimum = np.full_like(rate_has_recirc, False)
    else:
        choke_corrected_heads = heads
        pressure_is_choked = np.full_like(heads, False, dtype=bool)
        pressure_is_below_minimum = heads < minimum_head_values
    maximum_rate_function = self.maximum_rate_as_function_of_head if extrapolate_heads_below_minimum else self.maximum_rate_as_function_of_head_no_choking
    maximum_rates = maximum_rate_function(heads)
    rate_exceeds_maximum = asv_corrected_rates > maximum_rates
    maximum_heads = self.maximum_head_as_function_of_rate(actual_volume_rates)
    head_exceeds_maximum = choke_corrected_heads > maximum_heads
    exceeds_capacity = np.asarray(~(~rate_exceeds_maximum & ~head_exceeds_maximum & ~pressure_is_below_minimum))
    return CompressorChartResult(asv_corrected_rates=list(asv_corrected_rates), choke_corrected_heads=list(choke_corrected_heads), rate_has_recirc=list(rate_has_recirc), pressure_is_choked=list(pressure_is_choked), rate_exceeds_maximum=list(rate_exceeds_maximum), head_exceeds_maximum=list(head_exceeds_maximum), exceeds_capacity=list(exceeds_capacity))


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.head_as_function_of_speed_for_rates_below_minimum_extrapolation", props=["C24"])
def CompressorChart_head_as_function_of_speed_for_rates_below_minimum_extrapolation(self):
    return interp1d(x=self.speed_values, y=[x.rate_head_and_efficiency_at_minimum_rate[1] for x in self.curves], bounds_error=False, fill_value=([x.rate_head_and_efficiency_at_minimum_rate[1] for x in self.curves][0], [x.rate_head_and_efficiency_at_minimum_rate[1] for x in self.curves][-1]))


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.efficiency_as_function_of_speed_for_rates_below_minimum_extrapolation", props=["C24"])
def CompressorChart_efficiency_as_function_of_speed_for_rates_below_minimum_extrapolation(self):
    return interp1d(x=self.speed_values, y=[x.rate_head_and_efficiency_at_minimum_rate[2] for x in self.curves], bounds_error=False, fill_value=([x.rate_head_and_efficiency_at_minimum_rate[2] for x in self.curves][0], [x.rate_head_and_efficiency_at_minimum_rate[2] for x in self.curves][-1]))


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.head_as_function_of_speed_for_rates_above_maximum_extrapolation", props=["C24"])
def CompressorChart_head_as_function_of_speed_for_rates_above_maximum_extrapolation(self):
    return interp1d(x=self.speed_values, y=[x.rate_head_and_efficiency_at_maximum_rate[1] for x in self.curves], bounds_error=False, fill_value=([x.rate_head_and_efficiency_at_maximum_rate[1] for x in self.curves][0], [x.rate_head_and_efficiency_at_maximum_rate[1] for x in self.curves][-1]))


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.efficiency_as_function_of_speed_for_rates_above_maximum_extrapolation", props=["C24"])
def CompressorChart_efficiency_as_function_of_speed_for_rates_above_maximum_extrapolation(self):
    return interp1d(x=self.speed_values, y=[x.rate_head_and_efficiency_at_maximum_rate[2] for x in self.curves], bounds_error=False, fill_value=([x.rate_head_and_efficiency_at_maximum_rate[2] for x in self.curves][0], [x.rate_head_and_efficiency_at_maximum_rate[2] for x in self.curves][-1]))


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.calculate_polytropic_head_and_efficiency_single_point", props=["C24"])
def CompressorChart_calculate_polytropic_head_and_efficiency_single_point(self, speed, actual_rate_m3_per_hour, actual_rate_m3_per_hour_including_asv=None, increase_speed_below_assuming_choke=False, increase_rate_left_of_minimum_flow_assuming_asv=True):
    if actual_rate_m3_per_hour_including_asv is None:
        actual_rate_m3_per_hour_including_asv = actual_rate_m3_per_hour
    point_is_valid, chart_area_flag, speed_adjusted, rate_adjusted = self._evaluate_point_validity_chart_area_flag_and_adjusted_speed_and_rate(speed=speed, increase_speed_below_assuming_choke=increase_speed_below_assuming_choke, actual_rate_m3_per_hour_including_asv=actual_rate_m3_per_hour_including_asv, actual_rate_m3_per_hour=actual_rate_m3_per_hour, increase_rate_left_of_minimum_flow_assuming_asv=increase_rate_left_of_minimum_flow_assuming_asv)
    polytropic_head, polytropic_efficiency = self._calculate_polytropic_head_and_efficiency(point_is_valid=point_is_valid, speed=speed_adjusted, rate=rate_adjusted, chart_area_flag=chart_area_flag)
    return CompressorChartHeadEfficiencyResultSinglePoint(polytropic_head=float(polytropic_head), polytropic_efficiency=float(polytropic_efficiency), chart_area_flag=chart_area_flag, is_valid=point_is_valid)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart._evaluate_point_validity_chart_area_flag_and_adjusted_speed_and_rate", props=["C24"])
def CompressorChart_evaluate_point_validity_chart_area_flag_and_adjusted_speed_and_rate(self, speed, increase_speed_below_assuming_choke, actual_rate_m3_per_hour_including_asv, actual_rate_m3_per_hour, increase_rate_left_of_minimum_flow_assuming_asv):
    point_is_valid = True
    chart_area_flag = ChartAreaFlag.INTERNAL_POINT
    speed_to_use = speed
    rate_to_use = actual_rate_m3_per_hour_including_asv
    speed_is_increased = False
    if speed < self.minimum_speed:
        chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED
        if increase_speed_below_assuming_choke:
            speed_to_use = self.minimum_speed
            speed_is_increased = True
        else:
            point_is_valid = False
    elif speed > self.maximum_speed:
        chart_area_flag = ChartAreaFlag.ABOVE_MAXIMUM_SPEED
        point_is_valid = False
    if point_is_valid:
        minimum_flow_rate_for_speed = self.minimum_rate_as_function_of_speed(speed_to_use)
        maximum_flow_rate_for_speed = self.maximum_rate_as_function_of_speed(speed_to_use)
        if rate_to_use < minimum_flow_rate_for_speed:
            if increase_rate_left_of_minimum_flow_assuming_asv:
                rate_to_use = minimum_flow_rate_for_speed
            else:
                point_is_valid = False
        if actual_rate_m3_per_hour <= EPSILON:
            chart_area_flag = ChartAreaFlag.NO_FLOW_RATE
        elif actual_rate_m3_per_hour < minimum_flow_rate_for_speed:
            chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE if speed_is_increased else ChartAreaFlag.BELOW_MINIMUM_FLOW_RATE
        elif actual_rate_m3_per_hour > maximum_flow_rate_for_speed:
            chart_area_flag = ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE if speed_is_increased else ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE
            point_is_valid = False
    return (point_is_valid, chart_area_flag, speed_to_use, rate_to_use)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart._calculate_polytropic_head_and_efficiency", props=["C24"])
def CompressorChart_calculate_polytropic_head_and_efficiency(self, point_is_valid, speed, rate, chart_area_flag):
    if point_is_valid:
        chart_curve_at_given_speed = self.get_curve_by_speed(speed=speed)
        if chart_curve_at_given_speed is not None:
            polytropic_head = float(chart_curve_at_given_speed.head_as_function_of_rate(rate))
            polytropic_efficiency = float(chart_curve_at_given_speed.efficiency_as_function_of_rate(rate))
        else:
            polytropic_head, polytropic_efficiency = self.calculate_head_and_efficiency_for_internal_point_between_given_speeds(speed=speed, rate=rate)
    else:
        polytropic_head, polytropic_efficiency = self._calculate_extrapolated_values_for_external_points(speed=speed, chart_area_flag=chart_area_flag)
    return (polytropic_head, polytropic_efficiency)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart.calculate_head_and_efficiency_for_internal_point_between_given_speeds", props=["C24"])
def CompressorChart_calculate_head_and_efficiency_for_internal_point_between_given_speeds(self, speed, rate):
    speed_curve_below = self.closest_curve_below_speed(speed=speed)
    speed_curve_above = self.closest_curve_above_speed(speed=speed)
    if speed_curve_below is None or speed_curve_above is None:
        min_allowed_speed, *_, max_allowed_speed = sorted(self.speed_values)
        msg = f'The requested speed ({str(speed)}) is outside the allowed speed range ({str(min_allowed_speed)}-{str(max_allowed_speed)}). You should not get here, please contact support.'
        raise IllegalStateException(msg)
    scaling_factor_below, scaling_factor_above = self._calculate_scaling_factors_for_speed_below_and_above(speed=speed, speed_below=speed_curve_below.speed, speed_above=speed_curve_above.speed)
    equivalent_rate_speed_below, equivalent_rate_speed_above = self._calculate_equivalent_rates_for_speed_below_and_above(minimum_rate_speed_above=speed_curve_above.minimum_rate, maximum_rate_speed_above=speed_curve_above.maximum_rate, minimum_rate_speed_below=speed_curve_below.minimum_rate, maximum_rate_speed_below=speed_curve_below.maximum_rate, scaling_factor_below=scaling_factor_below, scaling_factor_above=scaling_factor_above, rate=rate)
    polytropic_head_speed_below = float(speed_curve_below.head_as_function_of_rate(equivalent_rate_speed_below))
    polytropic_efficiency_speed_below = float(speed_curve_below.efficiency_as_function_of_rate(equivalent_rate_speed_below))
    polytropic_head_speed_above = float(speed_curve_above.head_as_function_of_rate(equivalent_rate_speed_above))
    polytropic_efficiency_speed_above = float(speed_curve_above.efficiency_as_function_of_rate(equivalent_rate_speed_above))
    polytropic_head_for_speed = polytropic_head_speed_below * scaling_factor_below + polytropic_head_speed_above * scaling_factor_above
    polytropic_efficiency_for_speed = polytropic_efficiency_speed_below * scaling_factor_below + polytropic_efficiency_speed_above * scaling_factor_above
    return (polytropic_head_for_speed, polytropic_efficiency_for_speed)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart._calculate_extrapolated_values_for_external_points", props=["C24"])
def CompressorChart_calculate_extrapolated_values_for_external_points(self, speed, chart_area_flag):
    if chart_area_flag in (ChartAreaFlag.BELOW_MINIMUM_SPEED, ChartAreaFlag.ABOVE_MAXIMUM_SPEED):
        polytropic_head, polytropic_efficiency = (np.nan, np.nan)
    elif chart_area_flag in (ChartAreaFlag.ABOVE_MAXIMUM_FLOW_RATE, ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE):
        polytropic_head = self.head_as_function_of_speed_for_rates_above_maximum_extrapolation(speed)
        polytropic_efficiency = self.efficiency_as_function_of_speed_for_rates_above_maximum_extrapolation(speed)
    elif chart_area_flag in (ChartAreaFlag.BELOW_MINIMUM_FLOW_RATE, ChartAreaFlag.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE):
        polytropic_head = self.head_as_function_of_speed_for_rates_below_minimum_extrapolation(speed)
        polytropic_efficiency = self.efficiency_as_function_of_speed_for_rates_below_minimum_extrapolation(speed)
    else:
        msg = f'You should not enter here, please contact support. (Dead end for variable speed compressor chart evaluation, chart area flag: {str(chart_area_flag)})'
        raise IllegalStateException(msg)
    return (polytropic_head, polytropic_efficiency)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart._calculate_scaling_factors_for_speed_below_and_above", props=["C24"])
def CompressorChart_calculate_scaling_factors_for_speed_below_and_above(speed, speed_above, speed_below):
    distance_above = speed_above - speed
    distance_below = speed - speed_below
    total_distance_above_below = distance_above + distance_below
    scaling_factor_below = 0.0 if total_distance_above_below == 0.0 else distance_above / total_distance_above_below
    scaling_factor_above = 1.0 - scaling_factor_below
    return (scaling_factor_below, scaling_factor_above)


@target("libecalc.domain.process.value_objects.chart.compressor.compressor_chart.CompressorChart._calculate_equivalent_rates_for_speed_below_and_above", props=["C24"])
def CompressorChart_calculate_equivalent_rates_for_speed_below_and_above(minimum_rate_speed_below, maximum_rate_speed_below, minimum_rate_speed_above, maximum_rate_speed_above, scaling_factor_below, scaling_factor_above, rate):
    scaled_minimum_rate = scaling_factor_below * minimum_rate_speed_below + scaling_factor_above * minimum_rate_speed_above
    scaled_maximum_rate = scaling_factor_below * maximum_rate_speed_below + scaling_factor_above * maximum_rate_speed_above
    if rate > scaled_maximum_rate and abs(rate - scaled_maximum_rate) > NUMERICAL_TOLERANCE or (rate < scaled_minimum_rate and abs(rate - scaled_minimum_rate) > NUMERICAL_TOLERANCE):
        msg = f'The requested rate ({str(rate)}) is outside the allowed rate range ({str(scaled_minimum_rate)}-{str(scaled_maximum_rate)}). You should not get here, please contact support.'
        raise IllegalStateException(msg)
    scaled_rate_within_capacity = (rate - scaled_minimum_rate) / (scaled_maximum_rate - scaled_minimum_rate)
    equivalent_rate_speed_above = minimum_rate_speed_above + (maximum_rate_speed_above - minimum_rate_speed_above) * scaled_rate_within_capacity
    equivalent_rate_speed_below = minimum_rate_speed_below + (maximum_rate_speed_below - minimum_rate_speed_below) * scaled_rate_within_capacity
    return (equivalent_rate_speed_below, equivalent_rate_speed_above)


@target("libecalc.domain.process.value_objects.chart.compressor.generic_chart_data", props=["C24"])
class K64_constants:
    UNIFIED_GENERIC_CHART_CURVE_DATA_105 = np.asarray([[0.878913798, 1.289869247], [0.929112832, 1.271644457], [0.97269818, 1.247344747], [1.038726745, 1.200770298], [1.099463139, 1.148120922], [1.158871891, 1.089396618], [1.231463064, 0.99827269], [1.278951663, 0.913223698], [1.323778851, 0.809949924]])
    UNIFIED_GENERIC_CHART_CURVE_DATA_98 = np.asarray([[0.7809284, 1.129882353], [0.815887574, 1.122103203], [0.857308136, 1.100710544], [0.916847818, 1.067649164], [0.998369841, 1.001526411], [1.077293694, 0.927624501], [1.140672571, 0.84983302], [1.183332159, 0.773986328], [1.218229271, 0.705918786]])
    UNIFIED_CHART_CURVE_DATA_75 = np.asarray([[0.498902665, 0.558852888], [0.529285159, 0.546703033], [0.553058057, 0.5325282], [0.612499498, 0.506203512], [0.667962103, 0.46570399], [0.70889013, 0.427229447], [0.730015921, 0.409004665]])


@target("libecalc.domain.process.value_objects.chart.compressor.types.CompressorChartHeadEfficiencyResultSinglePoint.__init__", props=["C24"])
def CompressorChartHeadEfficiencyResultSinglePoint_init(self, polytropic_head, polytropic_efficiency, chart_area_flag, is_valid):
    self.polytropic_head = polytropic_head
    self.polytropic_efficiency = polytropic_efficiency
    self.chart_area_flag = chart_area_flag
    self.is_valid = is_valid


@target("libecalc.domain.process.value_objects.chart.compressor.types.CompressorChartResult.__init__", props=["C24"])
def CompressorChartResult_init(self, asv_corrected_rates, choke_corrected_heads, rate_has_recirc, pressure_is_choked, rate_exceeds_maximum, head_exceeds_maximum, exceeds_capacity):
    self.asv_corrected_rates = asv_corrected_rates
    self.choke_corrected_heads = choke_corrected_heads
    self.rate_has_recirc = rate_has_recirc
    self.pressure_is_choked = pressure_is_choked
    self.rate_exceeds_maximum = rate_exceeds_maximum
    self.head_exceeds_maximum = head_exceeds_maximum
    self.exceeds_capacity = exceeds_capacity


@target("libecalc.domain.process.value_objects.chart.compressor.types.CompressorChartResult.any_points_below_stone_wall", props=["C24"])
def CompressorChartResult_any_points_below_stone_wall(self):
    return any((rate_exceeds_maximum and not_head_exceeds_maximum for rate_exceeds_maximum, not_head_exceeds_maximum in zip(self.rate_exceeds_maximum, [not head_exceeds_maximum for head_exceeds_maximum in self.head_exceeds_maximum])))


@target("libecalc.domain.process.value_objects.chart.compressor.types.CompressorChartResult.any_points_above_maximum_speed_curve", props=["C24"])
def CompressorChartResult_any_points_above_maximum_speed_curve(self):
    return any((rate_exceeds_maximum and head_exceeds_maximum for rate_exceeds_maximum, head_exceeds_maximum in zip(self.rate_exceeds_maximum, self.head_exceeds_maximum)))
