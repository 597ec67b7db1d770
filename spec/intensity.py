# Reference equations (parsed by the checker, never executed).
import pandas as pd
from ecalc_cli.emission_intensity import EmissionIntensityResult, EmissionIntensityResults
from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.common.time_utils import Frequency
from libecalc.common.units import Unit
from libecalc.domain.emission.emission_intensity import EmissionIntensity
from libecalc.domain.emission.time_series_intensity import TimeSeriesIntensity


@target("libecalc.domain.emission.emission_intensity.EmissionIntensity.__init__", props=["C14"])
def EmissionIntensity_init(self, emission_cumulative, hydrocarbon_export_cumulative):
    if emission_cumulative.unit == Unit.KILO and hydrocarbon_export_cumulative.unit == Unit.STANDARD_CUBIC_METER:
        unit = Unit.KG_SM3
    elif emission_cumulative.unit == Unit.KILO and hydrocarbon_export_cumulative.unit == Unit.BOE:
        unit = Unit.KG_BOE
    else:
        raise ProgrammingError(f"Unable to divide unit '{emission_cumulative.unit}' by unit '{hydrocarbon_export_cumulative.unit}'. Please add unit conversion.")
    if len(emission_cumulative) != len(hydrocarbon_export_cumulative):
        raise ValueError()
    self.emission_cumulative = emission_cumulative
    self.hydrocarbon_export_cumulative = hydrocarbon_export_cumulative
    self.unit = unit
    self.periods = emission_cumulative.periods


@target("libecalc.domain.emission.emission_intensity.EmissionIntensity.calculate_for_periods", props=["C14"])
def EmissionIntensity_calculate_for_periods(self):
    emission_volumes = self.emission_cumulative.to_volumes()
    hc_export_volumes = self.hydrocarbon_export_cumulative.to_volumes()
    intensity = emission_volumes / hc_export_volumes
    return TimeSeriesIntensity(periods=self.periods, values=intensity.values, unit=self.unit)


@target("libecalc.domain.emission.emission_intensity.EmissionIntensity.calculate_cumulative", props=["C14"])
def EmissionIntensity_calculate_cumulative(self):
    intensity = self.emission_cumulative / self.hydrocarbon_export_cumulative
    return TimeSeriesIntensity(periods=self.periods, values=intensity.values, unit=self.unit)


@target("ecalc_cli.emission_intensity.EmissionIntensityResult", props=["C14"])
class EmissionIntensityResultValues:
    intensity_yearly_sm3 = None
    intensity_yearly_boe = None


@target("ecalc_cli.emission_intensity.EmissionIntensityResult.to_dataframe", props=["C14"])
def EmissionIntensityResult_to_dataframe(self, prefix=None):
    dfs = []
    for attr, value in self.__dict__.items():
        if isinstance(value, TimeSeriesIntensity) and value is not None:
            unit_str = str(value.unit.value) if hasattr(value.unit, 'value') else str(value.unit)
            col_name = f'{prefix}.{attr}[{unit_str}]' if prefix else f'{attr}[{unit_str}]'
            df = pd.DataFrame({col_name: value.values}, index=[p.start for p in value.periods])
            df.index.name = 'period'
            dfs.append(df)
    if dfs:
        result_df = pd.concat(dfs, axis=1)
        result_df.index.name = 'period'
        return result_df
    return pd.DataFrame()


@target("ecalc_cli.emission_intensity.EmissionIntensityCalculator.__init__", props=["C14"])
def EmissionIntensityCalculator_init(self, hydrocarbon_export_rate, emissions, frequency):
    self.hydrocarbon_export_rate = hydrocarbon_export_rate
    self.emissions = emissions
    self.frequency = frequency
    self._hydrocarbon_export_cumulative = hydrocarbon_export_rate.to_volumes().cumulative()
    self._intensity_calculator_sm3 = EmissionIntensity(emission_cumulative=self._cumulative_rate_kg(), hydrocarbon_export_cumulative=self._hydrocarbon_export_cumulative.to_unit(Unit.STANDARD_CUBIC_METER))
    self._intensity_calculator_boe = EmissionIntensity(emission_cumulative=self._cumulative_rate_kg(), hydrocarbon_export_cumulative=self._hydrocarbon_export_cumulative.to_unit(Unit.BOE))


@target("ecalc_cli.emission_intensity.EmissionIntensityCalculator.get_results", props=["C14"])
def EmissionIntensityCalculator_get_results(self):
    emission_intensities = []
    if self.frequency == Frequency.YEAR:
        intensity_yearly_sm3 = self._intensity_calculator_sm3.calculate_for_periods()
        intensity_yearly_boe = self._intensity_calculator_boe.calculate_for_periods()
    else:
        intensity_yearly_sm3 = None
        intensity_yearly_boe = None
    emission_intensities.append(EmissionIntensityResult(name=self._co2_emission_result().name, periods=self._co2_emission_result().periods, intensity_sm3=self._intensity_calculator_sm3.calculate_cumulative(), intensity_boe=self._intensity_calculator_boe.calculate_cumulative(), intensity_yearly_sm3=intensity_yearly_sm3, intensity_yearly_boe=intensity_yearly_boe))
    return EmissionIntensityResults(results=emission_intensities)


@target("ecalc_cli.emission_intensity.EmissionIntensityCalculator._co2_emission_result", props=["C14"])
def EmissionIntensityCalculator_co2_emission_result(self):
    return next((value for key, value in self.emissions.items() if key.lower() == 'co2'))


@target("ecalc_cli.emission_intensity.EmissionIntensityCalculator._cumulative_rate_kg", props=["C14"])
def EmissionIntensityCalculator_cumulative_rate_kg(self):
    return self._co2_emission_result().get_cumulative_kg()
