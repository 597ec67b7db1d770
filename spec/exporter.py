# Reference equations (parsed by the checker, never executed).
from collections import defaultdict
from datetime import datetime
from libecalc.common.errors.exceptions import ProgrammingError
from libecalc.common.math.numbers import Numbers
from libecalc.common.temporal_model import TemporalModel
from libecalc.common.time_utils import Period, Periods, resample_periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import TimeSeriesFloat, TimeSeriesVolumes
from libecalc.domain.installation import FuelConsumer
from libecalc.domain.tabular.exceptions import ColumnNotFound
from libecalc.presentation.exporter.aggregators import InstallationAggregator
from libecalc.presentation.exporter.appliers import Applier, FormatValuesToPrecisionModifier, InvertValuesModifier
from libecalc.presentation.exporter.configs import configs
from libecalc.presentation.exporter.configs.configs import LTPConfig, STPConfig
from libecalc.presentation.exporter.domain.exportable import AttributeMeta, AttributeSet, ExportableType
from libecalc.presentation.exporter.dto.dtos import FilteredResult, FormattableGroupedQuery, GroupedQueryResult, QueryResult
from libecalc.presentation.exporter.filters import Filter
from libecalc.presentation.exporter.formatters.index_formatter import PeriodIndexFormatter, TimeIndexFormatter
from libecalc.presentation.exporter.infrastructure import InstallationExportable, TimeSeriesAttribute
from libecalc.presentation.exporter.queries import ElectricityGeneratedQuery, EmissionQuery, FuelQuery, MaxUsageFromShoreQuery, PowerConsumptionQuery, StorageVolumeQuery
from typing import assert_never


@target("libecalc.presentation.exporter.aggregators.InstallationAggregator.__init__", props=["C13"])
def InstallationAggregator_init(self, frequency, appliers):
    self.frequency = frequency
    self.appliers = appliers


@target("libecalc.presentation.exporter.aggregators.InstallationAggregator.aggregate", props=["C13"])
def InstallationAggregator_aggregate(self, energy_calculator_result):
    aggregated_installation_results = []
    for installation in energy_calculator_result.get_from_type(ExportableType.INSTALLATION):
        installation_name = installation.get_name()
        single_results = []
        for applier in self.appliers:
            applier_result = applier.apply(installation, self.frequency)
            if applier_result:
                single_results.append(applier_result)
        aggregated_installation_results.append(GroupedQueryResult(group_name=installation_name, query_results=single_results))
    return aggregated_installation_results


@target("libecalc.presentation.exporter.appliers.Modifier.__init__", props=["C13"])
def Modifier_init(self, before_modifier=None):
    self.__before_modifier = before_modifier


@target("libecalc.presentation.exporter.appliers.Modifier.modify", props=["C13"])
def Modifier_modify(self, data):
    if self.__before_modifier is not None:
        return self._modify(self.__before_modifier.modify(data))
    return self._modify(data)


@target("libecalc.presentation.exporter.appliers.NullModifier._modify", props=["C13"])
def NullModifier_modify(self, data):
    return data


@target("libecalc.presentation.exporter.appliers.InvertValuesModifier._modify", props=["C13"])
def InvertValuesModifier_modify(self, data):
    return {key: -1.0 * value if value != 0 else 0.0 for key, value in data.items()}


@target("libecalc.presentation.exporter.appliers.FormatValuesToPrecisionModifier._modify", props=["C13"])
def FormatValuesToPrecisionModifier_modify(self, data):
    return {key: Numbers.format_to_precision(value, precision=configs.LTP_PRECISION) for key, value in data.items()}


@target("libecalc.presentation.exporter.appliers.Applier.__init__", props=["C13"])
def Applier_init(self, name, title, unit, query, modifier=FormatValuesToPrecisionModifier()):
    self.name = name
    self.title = title
    self.unit = unit
    self.query = query
    self.modifier = modifier


@target("libecalc.presentation.exporter.appliers.Applier.apply", props=["C13"])
def Applier_apply(self, installation_graph, frequency):
    values = self.query.query(installation_graph, self.unit, frequency)
    return QueryResult(name=self.name, title=self.title, unit=self.unit, values=self.modifier.modify(values)) if values else None


@target("libecalc.presentation.exporter.configs.configs", props=["C13"])
class K9_constants:
    LTP_PRECISION = 6


@target("libecalc.presentation.exporter.configs.configs.LTPConfig.filter", props=["C13"])
def LTPConfig_filter(frequency):
    return Filter(aggregator=LTPConfig.aggregator(frequency=frequency))


@target("libecalc.presentation.exporter.configs.configs.LTPConfig.aggregator", props=["C13"])
def LTPConfig_aggregator(frequency):
    return InstallationAggregator(frequency=frequency, appliers=[Applier(name='turbineFuelGasConsumption', title='Fuel Consumption', unit=Unit.STANDARD_CUBIC_METER, query=FuelQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'])), Applier(name='flareGasConsumption', title='Flare Gas', unit=Unit.STANDARD_CUBIC_METER, query=FuelQuery(installation_category='FIXED', consumer_categories=['FLARE'])), Applier(name='engineDieselConsumption', title='Diesel Consumption', unit=Unit.LITRES, query=FuelQuery(installation_category='FIXED', fuel_type_category='DIESEL')), Applier(name='engineNoCo2TaxDieselConsumption', title='No CO2 Tax Diesel Consumption', unit=Unit.LITRES, query=FuelQuery(installation_category='MOBILE', fuel_type_category='DIESEL')), Applier(name='boilerFuelGasConsumption', title='Boiler Fuel Consumption', unit=Unit.STANDARD_CUBIC_METER, query=FuelQuery(installation_category='FIXED', consumer_categories=['BOILER'], fuel_type_category='FUEL-GAS')), Applier(name='boilerDieselConsumption', title='Boiler Diesel Consumption', unit=Unit.LITRES, query=FuelQuery(installation_category='FIXED', consumer_categories=['BOILER'], fuel_type_category='DIESEL')), Applier(name='heaterFuelGasConsumption', title='Heater Fuel Consumption', unit=Unit.STANDARD_CUBIC_METER, query=FuelQuery(installation_category='FIXED', consumer_categories=['HEATER'], fuel_type_category='FUEL-GAS')), Applier(name='heaterDieselConsumption', title='Heater Diesel Consumption', unit=Unit.LITRES, query=FuelQuery(installation_category='FIXED', consumer_categories=['HEATER'], fuel_type_category='DIESEL')), Applier(name='turbineFuelGasCo2Mass', title='CO2 From Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], emission_type='co2')), Applier(name='flareGasCo2Mass', title='CO2 From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='co2')), Applier(name='engineDieselCo2Mass', title='CO2 From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', emission_type='co2')), Applier(name='engineNoCo2TaxDieselCo2Mass', title='CO2 From Diesel No CO2 Tax', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', fuel_type_category='DIESEL', emission_type='co2')), Applier(name='boilerFuelGasCo2Mass', title='CO2 From Boiler Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['BOILER'], emission_type='co2')), Applier(name='boilerDieselCo2Mass', title='CO2 From Boiler Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['BOILER'], emission_type='co2')), Applier(name='heaterFuelGasCo2Mass', title='CO2 From Heater Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['HEATER'], emission_type='co2')), Applier(name='heaterDieselCo2Mass', title='CO2 From Heater Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['HEATER'], emission_type='co2')), Applier(name='co2VentingMass', title='CO2 From Cold Venting Fugitives', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['COLD-VENTING-FUGITIVE'], emission_type='co2')), Applier(name='turbineFuelGasNoxMass', title='NOX From Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], emission_type='nox')), Applier(name='flareGasNoxMass', title='NOX From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='nox')), Applier(name='engineDieselNoxMass', title='NOX From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', emission_type='nox')), Applier(name='engineNoCo2TaxDieselNoxMass', title='NOX From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', fuel_type_category='DIESEL', emission_type='nox')), Applier(name='boilerFuelGasNoxMass', title='NOX From Boiler Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['BOILER'], emission_type='nox')), Applier(name='boilerDieselNoxMass', title='NOX From Boiler Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['BOILER'], emission_type='nox')), Applier(name='heaterFuelGasNoxMass', title='NOX From Heater Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['HEATER'], emission_type='nox')), Applier(name='heaterDieselNoxMass', title='NOX From Heater Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['HEATER'], emission_type='nox')), Applier(name='turbineFuelGasNmvocMass', title='NMVOC From Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], emission_type='nmvoc')), Applier(name='flareGasNmvocMass', title='NMVOC From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='nmvoc')), Applier(name='engineDieselNmvocMass', title='NMVOC From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', emission_type='nmvoc')), Applier(name='engineNoCo2TaxDieselNmvocMass', title='NMVOC From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', fuel_type_category='DIESEL', emission_type='nmvoc')), Applier(name='boilerFuelGasNmvocMass', title='NMVOC From Boiler Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['BOILER'], emission_type='nmvoc')), Applier(name='boilerDieselNmvocMass', title='NMVOC From Boiler Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['BOILER'], emission_type='nmvoc')), Applier(name='heaterFuelGasNmvocMass', title='NMVOC From Heater Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['HEATER'], emission_type='nmvoc')), Applier(name='heaterDieselNmvocMass', title='NMVOC From Heater Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['HEATER'], emission_type='nmvoc')), Applier(name='coldVentAndFugitivesNmvocMass', title='NMVOC From Cold Venting Fugitives', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['COLD-VENTING-FUGITIVE'], emission_type='nmvoc')), Applier(name='coldVentAndFugitivesNoCo2TaxNmvocMass', title='NMVOC From Cold Venting Fugitives', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', consumer_categories=['COLD-VENTING-FUGITIVE'], emission_type='nmvoc')), Applier(name='storageNmvocMass', title='NMVOC From Storage', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['STORAGE'], emission_type='nmvoc')), Applier(name='loadingNmvocMass', title='NMVOC From Loading', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['LOADING'], emission_type='nmvoc')), Applier(name='turbineFuelGasCh4Mass', title='CH4 From Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['TURBINE-GENERATOR', 'GAS-DRIVEN-COMPRESSOR'], emission_type='ch4')), Applier(name='flareGasCh4Mass', title='CH4 From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='ch4')), Applier(name='engineDieselCh4Mass', title='CH4 From Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', emission_type='ch4')), Applier(name='engineNoCo2TaxDieselCh4Mass', title='CH4 From Diesel No CO2 Tax', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', fuel_type_category='DIESEL', emission_type='ch4')), Applier(name='boilerFuelGasCh4Mass', title='CH4 From Boiler Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['BOILER'], emission_type='ch4')), Applier(name='boilerDieselCh4Mass', title='CH4 From Boiler Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['BOILER'], emission_type='ch4')), Applier(name='heaterFuelGasCh4Mass', title='CH4 From Heater Fuel Gas', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='FUEL-GAS', consumer_categories=['HEATER'], emission_type='ch4')), Applier(name='heaterDieselCh4Mass', title='CH4 From Heater Diesel', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', fuel_type_category='DIESEL', consumer_categories=['HEATER'], emission_type='ch4')), Applier(name='coldVentAndFugitivesCh4Mass', title='CH4 From Cold Venting Fugitives', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['COLD-VENTING-FUGITIVE'], emission_type='ch4')), Applier(name='coldVentAndFugitivesNoCo2TaxCh4Mass', title='CH4 From Cold Venting Fugitives', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', consumer_categories=['COLD-VENTING-FUGITIVE'], emission_type='ch4')), Applier(name='storageCh4Mass', title='CH4 From Storage', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['STORAGE'], emission_type='ch4')), Applier(name='loadingCh4Mass', title='CH4 From Loading', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['LOADING'], emission_type='ch4')), Applier(name='loadedAndStoredOil', title='Total Oil Loaded/Stored', unit=Unit.STANDARD_CUBIC_METER, query=StorageVolumeQuery(installation_category='FIXED', consumer_categories=['LOADING'])), Applier(name='gasTurbineGeneratorConsumption', title='Total Electricity Generated', unit=Unit.GIGA_WATT_HOURS, query=ElectricityGeneratedQuery(installation_category='FIXED', producer_categories=['TURBINE-GENERATOR'])), Applier(name='gasTurbineCompressorConsumption', title='Total Power Consumed By Gas-Turbine Driven Compressors', unit=Unit.GIGA_WATT_HOURS, query=PowerConsumptionQuery(installation_category='FIXED', consumer_categories=['GAS-DRIVEN-COMPRESSOR'])), Applier(name='offshoreWindConsumption', title='Total Electricity Consumed From Offshore Wind', unit=Unit.GIGA_WATT_HOURS, query=PowerConsumptionQuery(installation_category='FIXED', consumer_categories=['OFFSHORE-WIND']), modifier=FormatValuesToPrecisionModifier(InvertValuesModifier())), Applier(name='fromShoreConsumption', title='Total Electricity Consumed From Power-From-Shore', unit=Unit.GIGA_WATT_HOURS, query=PowerConsumptionQuery(producer_categories=['POWER-FROM-SHORE'])), Applier(name='powerSupplyOnshore', title='Power Supply Onshore', unit=Unit.GIGA_WATT_HOURS, query=ElectricityGeneratedQuery(producer_categories=['POWER-FROM-SHORE'])), Applier(name='fromShorePeakMaximum', title='Max Usage from Shore', unit=Unit.MEGA_WATT, query=MaxUsageFromShoreQuery(producer_categories=['POWER-FROM-SHORE'])), Applier(name='steamTurbineGeneratorConsumption', title='Total Electricity Consumed From Steam Turbine Generators', unit=Unit.GIGA_WATT_HOURS, query=PowerConsumptionQuery(installation_category='FIXED', consumer_categories=['STEAM-TURBINE-GENERATOR']), modifier=FormatValuesToPrecisionModifier(InvertValuesModifier()))])


@target("libecalc.presentation.exporter.configs.configs.STPConfig.filter", props=["C13"])
def STPConfig_filter(frequency):
    return Filter(aggregator=STPConfig.aggregator(frequency=frequency))


@target("libecalc.presentation.exporter.configs.configs.STPConfig.aggregator", props=["C13"])
def STPConfig_aggregator(frequency):
    return InstallationAggregator(frequency=frequency, appliers=[Applier(name='co2Emission', title='Total CO2', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', emission_type='co2')), Applier(name='co2FromMobileUnits', title='Total CO2', unit=Unit.TONS, query=EmissionQuery(installation_category='MOBILE', emission_type='co2')), Applier(name='methaneEmission', title='Total CH4', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', emission_type='ch4')), Applier(name='flareGasCo2Mass', title='CO2 From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='co2')), Applier(name='flareGasCh4Mass', title='CH4 From Flare', unit=Unit.TONS, query=EmissionQuery(installation_category='FIXED', consumer_categories=['FLARE'], emission_type='ch4')), Applier(name='powerSupplyOnshore', title='Power Supply Onshore', unit=Unit.GIGA_WATT_HOURS, query=ElectricityGeneratedQuery(producer_categories=['POWER-FROM-SHORE'])), Applier(name='flare', title='Flare', unit=Unit.STANDARD_CUBIC_METER, query=FuelQuery(installation_category='FIXED', consumer_categories=['FLARE']))])


@target("libecalc.presentation.exporter.configs.formatter_config.TimeFormatterConfig.get_row_index_formatters", props=["C13"])
def TimeFormatterConfig_get_row_index_formatters():
    return [TimeIndexFormatter(name='forecastYear', title='Years', time_format='%Y'), TimeIndexFormatter(name='forecastMonth', title='Months', time_format='%m')]


@target("libecalc.presentation.exporter.configs.formatter_config.PeriodFormatterConfig.get_row_index_formatters", props=["C13"])
def PeriodFormatterConfig_get_row_index_formatters():
    return [PeriodIndexFormatter(name='forecastYear', title='Years', time_format='%Y'), PeriodIndexFormatter(name='forecastMonth', title='Months', time_format='%m')]


@target("libecalc.presentation.exporter.domain.exportable.ExportableType", props=["C13"])
class ExportableTypeValues:
    INSTALLATION = 'INSTALLATION'


@target("libecalc.presentation.exporter.domain.exportable.ConsumptionType", props=["C13"])
class ConsumptionTypeValues:
    FUEL = 'FUEL'
    ELECTRICITY = 'ELECTRICITY'


@target("libecalc.presentation.exporter.domain.exportable.AttributeMeta", props=["C13"])
class AttributeMetaValues:
    producer_category = None
    emission_type = None


@target("libecalc.presentation.exporter.domain.exportable.AttributeSet.__iter__", props=["C13"])
def AttributeSet_iter(self):
    return self.attributes.__iter__()


@target("libecalc.presentation.exporter.dto.dtos.DataSeries.get_title", props=["C13"])
def DataSeries_get_title(self):
    return self.title


@target("libecalc.presentation.exporter.dto.dtos.DataSeries.id", props=["C13"])
def DataSeries_id(self):
    return self.name


@target("libecalc.presentation.exporter.dto.dtos.QueryResult.get_title", props=["C13"])
def QueryResult_get_title(self):
    return f'{self.title}[{self.unit}]'


@target("libecalc.presentation.exporter.dto.dtos.QueryResult.id", props=["C13"])
def QueryResult_id(self):
    return self.name


@target("libecalc.presentation.exporter.dto.dtos.FormattableGroupedQuery.__post_init__", props=["C13"])
def FormattableGroupedQuery_post_init(self):
    len_results = len(self.query_results)
    if len_results >= 1:
        periods = set(self.query_results[0].values.keys())
        if len_results > 1:
            for result in self.query_results[1:]:
                pass
    else:
        periods = set()
    self.periods = Periods(periods=sorted(periods))


@target("libecalc.presentation.exporter.dto.dtos.FormattableGroupedQuery.row_ids", props=["C13"])
def FormattableGroupedQuery_row_ids(self):
    return self.periods.periods


@target("libecalc.presentation.exporter.dto.dtos.FormattableGroupedQuery.column_ids", props=["C13"])
def FormattableGroupedQuery_column_ids(self):
    column_ids = []
    for query_result in self.query_results:
        column_ids.append(query_result.id)
    return column_ids


@target("libecalc.presentation.exporter.dto.dtos.FormattableGroupedQuery.get_column", props=["C13"])
def FormattableGroupedQuery_get_column(self, column_id):
    try:
        return next((query_result for query_result in self.query_results if query_result.id == column_id))
    except StopIteration as e:
        raise ColumnNotFound(column_id)


@target("libecalc.presentation.exporter.dto.dtos.FormattableGroupedQuery.get_value", props=["C13"])
def FormattableGroupedQuery_get_value(self, row_id, column_id):
    column = self.get_column(column_id)
    return column.values[row_id]


@target("libecalc.presentation.exporter.dto.dtos.FilteredResult.groups", props=["C13"])
def FilteredResult_groups(self):
    return ((group.group_name, FormattableGroupedQuery(query_results=group.query_results)) for group in self.query_results)


@target("libecalc.presentation.exporter.exporter.Exporter.__init__", props=["C13"])
def Exporter_init(self):
    self.handlers = []


@target("libecalc.presentation.exporter.exporter.Exporter.export", props=["C13"])
def Exporter_export(self, grouped_row_based_data):
    for handler in self.handlers:
        handler.handle(grouped_row_based_data)


@target("libecalc.presentation.exporter.exporter.Exporter.add_handler", props=["C13"])
def Exporter_add_handler(self, handler):
    self.handlers.append(handler)


@target("libecalc.presentation.exporter.exporter.ExporterRegistry.__init__", props=["C13"])
def ExporterRegistry_init(self):
    pass


@target("libecalc.presentation.exporter.exporter.ExporterRegistry.get", props=["C13"])
def ExporterRegistry_get(self, name):
    raise NotImplementedError


@target("libecalc.presentation.exporter.filters.Filter.filter", props=["C13"])
def Filter_filter(self, energy_calculator_result):
    query_result_collection = self.aggregator.aggregate(energy_calculator_result)
    return FilteredResult(query_results=query_result_collection)


@target("libecalc.presentation.exporter.formatters.formatter.CSVFormatter.__init__", props=["C13"])
def CSVFormatter_init(self, separation_character=',', index_formatters=None):
    self.separation_character = separation_character
    self.index_formatters = index_formatters or []


@target("libecalc.presentation.exporter.formatters.formatter.CSVFormatter.format", props=["C13"])
def CSVFormatter_format(self, tabular):
    column_ids = tabular.column_ids
    rows = [self.separation_character.join([*[index_formatter.get_id() for index_formatter in self.index_formatters], *column_ids]), '#' + self.separation_character.join([*[index_formatter.get_title() for index_formatter in self.index_formatters], *[tabular.get_column(column_id).get_title() for column_id in column_ids]])]
    for row_id in tabular.row_ids:
        row_index = [index_formatter.format(row_id) for index_formatter in self.index_formatters]
        row = [str(tabular.get_value(row_id, column_id)) for column_id in column_ids]
        rows.append(self.separation_character.join([*row_index, *row]))
    return rows


@target("libecalc.presentation.exporter.formatters.formatter.CSVFormatter.format_groups", props=["C13"])
def CSVFormatter_format_groups(self, grouped_tabular):
    csv_formatted_lists_per_installation = {}
    for group_name, tabular in grouped_tabular.groups:
        csv_formatted_lists_per_installation[group_name] = self.format(tabular)
    return csv_formatted_lists_per_installation


@target("libecalc.presentation.exporter.formatters.index_formatter.TimeIndexFormatter.__init__", props=["C13"])
def TimeIndexFormatter_init(self, name, title, time_format):
    self.name = name
    self.title = title
    self.time_format = time_format


@target("libecalc.presentation.exporter.formatters.index_formatter.TimeIndexFormatter.get_id", props=["C13"])
def TimeIndexFormatter_get_id(self):
    return self.name


@target("libecalc.presentation.exporter.formatters.index_formatter.TimeIndexFormatter.get_title", props=["C13"])
def TimeIndexFormatter_get_title(self):
    return self.title


@target("libecalc.presentation.exporter.formatters.index_formatter.TimeIndexFormatter.format", props=["C13"])
def TimeIndexFormatter_format(self, index):
    return datetime.strftime(index, self.time_format)


@target("libecalc.presentation.exporter.formatters.index_formatter.PeriodIndexFormatter.__init__", props=["C13"])
def PeriodIndexFormatter_init(self, name, title, time_format):
    self.name = name
    self.title = title
    self.time_format = time_format


@target("libecalc.presentation.exporter.formatters.index_formatter.PeriodIndexFormatter.get_id", props=["C13"])
def PeriodIndexFormatter_get_id(self):
    return self.name


@target("libecalc.presentation.exporter.formatters.index_formatter.PeriodIndexFormatter.get_title", props=["C13"])
def PeriodIndexFormatter_get_title(self):
    return self.title


@target("libecalc.presentation.exporter.formatters.index_formatter.PeriodIndexFormatter.format", props=["C13"])
def PeriodIndexFormatter_format(self, index):
    return datetime.strftime(index.start, self.time_format)


@target("libecalc.presentation.exporter.handlers.handler.StreamHandler.__init__", props=["C13"])
def StreamHandler_init(self, stream=sys.stdout, emit_name=False):
    self.stream = stream
    self.emit_name = emit_name


@target("libecalc.presentation.exporter.handlers.handler.StreamHandler.handle", props=["C13"])
def StreamHandler_handle(self, grouped_row_based_data):
    for group_name, rows in grouped_row_based_data.items():
        if self.emit_name:
            self.stream.write('\n')
            self.stream.write(group_name)
            self.stream.write('\n\n')
        for row in rows:
            self.stream.write(row)
            self.stream.write('\n')


@target("libecalc.presentation.exporter.handlers.handler.MultiStreamHandler.__init__", props=["C13"])
def MultiStreamHandler_init(self, streams):
    self.streams = streams


@target("libecalc.presentation.exporter.handlers.handler.MultiStreamHandler.handle", props=["C13"])
def MultiStreamHandler_handle(self, grouped_row_based_data):
    for group_name, rows in grouped_row_based_data.items():
        self.streams[group_name] = io.StringIO()
        for row in rows:
            self.streams[group_name].write(row)
            self.streams[group_name].write('\n')


@target("libecalc.presentation.exporter.handlers.handler.FileHandler.__init__", props=["C13"])
def FileHandler_init(self, path, prefix, suffix, extension):
    self.path = path
    self.prefix = prefix
    self.suffix = suffix
    self.extension = extension


@target("libecalc.presentation.exporter.handlers.handler.FileHandler.handle", props=["C13"])
def FileHandler_handle(self, grouped_row_based_data):
    with open(self.path / f'{self.prefix}{self.suffix}{self.extension}', 'w') as file:
        for rows in grouped_row_based_data.values():
            for row in rows:
                file.write(row + '\n')


@target("libecalc.presentation.exporter.handlers.handler.MultiFileHandler.__init__", props=["C13"])
def MultiFileHandler_init(self, path, prefix, suffix, extension):
    self.path = path
    self.prefix = prefix
    self.suffix = suffix
    self.extension = extension


@target("libecalc.presentation.exporter.handlers.handler.MultiFileHandler.handle", props=["C13"])
def MultiFileHandler_handle(self, grouped_row_based_data):
    for group_name, rows in grouped_row_based_data.items():
        with open(self.path / f'{self.prefix}.{group_name}{self.suffix}{self.extension}', 'w') as file:
            for row in rows:
                file.write(row + '\n')


@target("libecalc.presentation.exporter.infrastructure.TimeSeriesAttribute.__init__", props=["C13"])
def TimeSeriesAttribute_init(self, time_series, attribute_meta):
    self._attribute_meta = attribute_meta
    self._time_series = time_series


@target("libecalc.presentation.exporter.infrastructure.TimeSeriesAttribute.datapoints", props=["C13"])
def TimeSeriesAttribute_datapoints(self):
    return self._time_series.datapoints()


@target("libecalc.presentation.exporter.infrastructure.TimeSeriesAttribute.get_meta", props=["C13"])
def TimeSeriesAttribute_get_meta(self):
    return self._attribute_meta


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.__init__", props=["C13"])
def InstallationExportable_init(self, installation, category_service):
    self._installation = installation
    self._category_service = category_service
    self._frequency = None


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_electricity_production", props=["C13"])
def InstallationExportable_get_electricity_production(self, unit):
    attributes = []
    for electricity_producer in self._installation.get_electricity_producers():
        consumer_category = self._category_service.get_category(electricity_producer.get_id())
        for period, category in consumer_category.items():
            power_production_rate = electricity_producer.get_power_production()
            electricity_production_volumes = power_production_rate.for_period(period).to_volumes().to_unit(unit)
            attributes.append(TimeSeriesAttribute(time_series=electricity_production_volumes, attribute_meta=AttributeMeta(fuel_category=None, consumer_category=None, producer_category=category)))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_maximum_electricity_production", props=["C13"])
def InstallationExportable_get_maximum_electricity_production(self, unit):
    attributes = []
    for electricity_producer in self._installation.get_electricity_producers():
        max_electricity_production = electricity_producer.get_maximum_power_production()
        if max_electricity_production is None:
            continue
        consumer_category = self._category_service.get_category(electricity_producer.get_id())
        for period, category in consumer_category.items():
            max_usage_from_shore_rate = max_electricity_production.for_period(period).to_unit(unit)
            attributes.append(TimeSeriesAttribute(time_series=max_usage_from_shore_rate, attribute_meta=AttributeMeta(fuel_category=None, consumer_category=None, producer_category=category)))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_storage_volumes", props=["C13"])
def InstallationExportable_get_storage_volumes(self, unit):
    attributes = []
    for storage_container in self._installation.get_storage_containers():
        storage_rates = storage_container.get_storage_rates()
        storage_volumes = storage_rates.to_volumes().to_unit(unit)
        consumer_category = self._category_service.get_category(storage_container.get_id())
        for period, category in consumer_category.items():
            attributes.append(TimeSeriesAttribute(time_series=storage_volumes.for_period(period), attribute_meta=AttributeMeta(fuel_category=None, consumer_category=category)))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_category", props=["C13"])
def InstallationExportable_get_category(self):
    installation_category = self._category_service.get_category(self._installation.get_id())
    if installation_category is None:
        return None
    categories = list(installation_category.get_models())
    return categories[0]


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_periods", props=["C13"])
def InstallationExportable_get_periods(self):
    return self._installation.expression_evaluator.get_periods()


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable._combine_categories", props=["C13"])
def InstallationExportable_combine_categories(fuel_category=None, consumer_category=None, producer_category=None):
    defined_temporal_categories = [temporal_category for temporal_category in [fuel_category, consumer_category, producer_category] if temporal_category is not None]
    if len(defined_temporal_categories) < 2:
        raise ProgrammingError('Should combine at least two temporal categories')
    timesteps = set()
    for temporal_model in defined_temporal_categories:
        for period in temporal_model.get_periods():
            timesteps.add(period.start)
            timesteps.add(period.end)
    periods = Periods.create_periods(sorted(timesteps), include_before=False, include_after=False)

    def _get_category(temporal_category, period):
        if temporal_category is None:
            return None
        try:
            return temporal_category.get_model(period)
        except ValueError:
            return None
    combined = []
    for period in periods:
        combined.append((period, AttributeMeta(fuel_category=_get_category(fuel_category, period), consumer_category=_get_category(consumer_category, period), producer_category=_get_category(producer_category, period))))
    return combined


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable._get_temporal_fuel_category", props=["C13"])
def InstallationExportable_get_temporal_fuel_category(self, temporal_fuel):
    temporal_fuel_category_dict = {}
    for fuel_period, fuel in temporal_fuel.items():
        fuel_category = self._category_service.get_category(fuel.get_id())
        if fuel_category is None:
            temporal_fuel_category_dict[fuel_period] = None
        else:
            for fuel_category_period, category in fuel_category.items():
                intersected_period = Period.intersection(fuel_period, fuel_category_period)
                temporal_fuel_category_dict[intersected_period] = category
    return TemporalModel(temporal_fuel_category_dict)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_fuel_consumption", props=["C13"])
def InstallationExportable_get_fuel_consumption(self):
    attributes = []
    for fuel_consumer in self._installation.get_fuel_consumers():
        fuel_rate = fuel_consumer.get_fuel_consumption()
        consumer_category = self._category_service.get_category(fuel_consumer.get_id())
        fuel_category = self._get_temporal_fuel_category(fuel_rate.fuel)
        for period, attribute_meta in self._combine_categories(fuel_category, consumer_category):
            fuel_consumption_volumes = fuel_rate.rate.for_period(period).to_volumes()
            if any((math.isnan(x) for x in fuel_consumption_volumes.values)):
                pass
            attributes.append(TimeSeriesAttribute(time_series=fuel_consumption_volumes, attribute_meta=attribute_meta))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_power_consumption", props=["C13"])
def InstallationExportable_get_power_consumption(self, unit):
    attributes = []
    for power_consumer in self._installation.get_power_consumers():
        consumer_category = self._category_service.get_category(power_consumer.get_id())
        producer_id = power_consumer.get_producer_id()
        if producer_id is not None:
            producer_category = self._category_service.get_category(producer_id)
            iterator = self._combine_categories(consumer_category=consumer_category, producer_category=producer_category)
        else:
            iterator = [(period, AttributeMeta(fuel_category=None, consumer_category=category)) for period, category in consumer_category.items()]
        for period, attribute_meta in iterator:
            electricity_consumption_volumes = power_consumer.get_power_consumption().for_period(period).to_volumes().to_unit(unit)
            attributes.append(TimeSeriesAttribute(time_series=electricity_consumption_volumes, attribute_meta=AttributeMeta(fuel_category=None, consumer_category=attribute_meta.consumer_category, producer_category=attribute_meta.producer_category)))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_emissions", props=["C13"])
def InstallationExportable_get_emissions(self, unit):
    attributes = []
    for emitter in self._installation.get_emitters():
        emissions = emitter.get_emissions()
        consumer_category = self._category_service.get_category(emitter.get_id())
        if isinstance(emitter, FuelConsumer):
            fuel = emitter.get_fuel()
            fuel_category = self._get_temporal_fuel_category(fuel)
            iterator = self._combine_categories(fuel_category, consumer_category)
        else:
            iterator = [(period, AttributeMeta(fuel_category=None, consumer_category=category)) for period, category in consumer_category.items()]
        for period, attribute_meta in iterator:
            for emission_name, emission in emissions.items():
                emission_volumes = emission.for_period(period).to_volumes().to_unit(unit)
                emission_attribute_meta = AttributeMeta(fuel_category=attribute_meta.fuel_category, consumer_category=attribute_meta.consumer_category, emission_type=emission_name)
                attributes.append(TimeSeriesAttribute(time_series=emission_volumes, attribute_meta=emission_attribute_meta))
    return AttributeSet(attributes)


@target("libecalc.presentation.exporter.infrastructure.InstallationExportable.get_name", props=["C13"])
def InstallationExportable_get_name(self):
    return self._installation.get_name()


@target("libecalc.presentation.exporter.infrastructure.ExportableYamlModel.__init__", props=["C13"])
def ExportableYamlModel_init(self, yaml_model):
    self._yaml_model = yaml_model


@target("libecalc.presentation.exporter.infrastructure.ExportableYamlModel.get_from_type", props=["C13"])
def ExportableYamlModel_get_from_type(self, exportable_type):
    if exportable_type == ExportableType.INSTALLATION:
        return [InstallationExportable(installation, category_service=self._yaml_model.get_category_service()) for installation in self._yaml_model.get_installations()]
    else:
        assert_never(exportable_type)


@target("libecalc.presentation.exporter.queries.FuelQuery.__init__", props=["C13"])
def FuelQuery_init(self, consumer_categories=None, installation_category=None, fuel_type_category=None):
    self.consumer_categories = consumer_categories
    self.installation_category = installation_category
    self.fuel_type_category = fuel_type_category


@target("libecalc.presentation.exporter.queries.FuelQuery.query", props=["C13"])
def FuelQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_fuel_consumption():
        meta = attribute.get_meta()
        if self.fuel_type_category is not None and meta.fuel_category != self.fuel_type_category:
            continue
        if self.consumer_categories is not None and meta.consumer_category not in self.consumer_categories:
            continue
        for period, fuel_volume in attribute.datapoints():
            aggregated_result[period] += fuel_volume
    sorted_result = dict(sorted(zip(aggregated_result.keys(), aggregated_result.values())))
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    resampled_results = TimeSeriesVolumes(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).fill_nan(0)
    return {resampled_results.periods.periods[i]: resampled_results.values[i] for i in range(len(resampled_results))}


@target("libecalc.presentation.exporter.queries.StorageVolumeQuery.__init__", props=["C13"])
def StorageVolumeQuery_init(self, installation_category=None, consumer_categories=None):
    self.installation_category = installation_category
    self.consumer_categories = consumer_categories


@target("libecalc.presentation.exporter.queries.StorageVolumeQuery.query", props=["C13"])
def StorageVolumeQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_storage_volumes(unit):
        meta = attribute.get_meta()
        if self.consumer_categories is not None and meta.consumer_category not in self.consumer_categories:
            continue
        for period, fuel_volume in attribute.datapoints():
            aggregated_result[period] += fuel_volume
    sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    resampled_results = TimeSeriesVolumes(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).fill_nan(0)
    return {resampled_results.periods.periods[i]: resampled_results.values[i] for i in range(len(resampled_results))}


@target("libecalc.presentation.exporter.queries.EmissionQuery.__init__", props=["C13"])
def EmissionQuery_init(self, installation_category=None, consumer_categories=None, fuel_type_category=None, emission_type=None):
    self.installation_category = installation_category
    self.consumer_categories = consumer_categories
    self.fuel_type_category = fuel_type_category
    self.emission_type = emission_type


@target("libecalc.presentation.exporter.queries.EmissionQuery.query", props=["C13"])
def EmissionQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_emissions(unit):
        meta = attribute.get_meta()
        if self.fuel_type_category is not None and meta.fuel_category != self.fuel_type_category:
            continue
        if self.consumer_categories is not None and meta.consumer_category not in self.consumer_categories:
            continue
        if self.emission_type is not None and meta.emission_type != self.emission_type:
            continue
        for period, emission_volume in attribute.datapoints():
            aggregated_result[period] += emission_volume
    sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    resampled_result = TimeSeriesVolumes(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).to_unit(Unit.KILO).to_unit(unit).fill_nan(0)
    return {resampled_result.periods.periods[i]: resampled_result.values[i] for i in range(len(resampled_result))}


@target("libecalc.presentation.exporter.queries.ElectricityGeneratedQuery.__init__", props=["C13"])
def ElectricityGeneratedQuery_init(self, installation_category=None, producer_categories=None):
    self.installation_category = installation_category
    self.producer_categories = producer_categories


@target("libecalc.presentation.exporter.queries.ElectricityGeneratedQuery.query", props=["C13"])
def ElectricityGeneratedQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_electricity_production(unit):
        meta = attribute.get_meta()
        if self.producer_categories is not None and meta.producer_category not in self.producer_categories:
            continue
        for period, production_volume in attribute.datapoints():
            aggregated_result[period] += production_volume
    sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    resampled_result = TimeSeriesVolumes(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).fill_nan(0)
    return {resampled_result.periods.periods[i]: resampled_result.values[i] for i in range(len(resampled_result))}


@target("libecalc.presentation.exporter.queries.MaxUsageFromShoreQuery.__init__", props=["C13"])
def MaxUsageFromShoreQuery_init(self, installation_category=None, producer_categories=None):
    self.installation_category = installation_category
    self.producer_categories = producer_categories


@target("libecalc.presentation.exporter.queries.MaxUsageFromShoreQuery.query", props=["C13"])
def MaxUsageFromShoreQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_maximum_electricity_production(unit):
        meta = attribute.get_meta()
        if self.producer_categories is not None and meta.producer_category not in self.producer_categories:
            continue
        for period, production_volume in attribute.datapoints():
            aggregated_result[period] += production_volume
    sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    return {period: TimeSeriesFloat(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).for_period(period).max for period in resample_periods(periods=installation_graph.get_periods(), frequency=frequency)}


@target("libecalc.presentation.exporter.queries.PowerConsumptionQuery.__init__", props=["C13"])
def PowerConsumptionQuery_init(self, consumer_categories=None, installation_category=None, producer_categories=None):
    self.consumer_categories = consumer_categories
    self.producer_categories = producer_categories
    self.installation_category = installation_category


@target("libecalc.presentation.exporter.queries.PowerConsumptionQuery.query", props=["C13"])
def PowerConsumptionQuery_query(self, installation_graph, unit, frequency):
    if self.installation_category is not None and self.installation_category != installation_graph.get_category():
        return None
    aggregated_result = defaultdict(float)
    for attribute in installation_graph.get_power_consumption(unit):
        meta = attribute.get_meta()
        if self.producer_categories is not None and meta.producer_category not in self.producer_categories:
            continue
        if self.consumer_categories is not None and meta.consumer_category not in self.consumer_categories:
            continue
        for period, consumption_volume in attribute.datapoints():
            aggregated_result[period] += consumption_volume
    sorted_result = dict(dict(sorted(zip(aggregated_result.keys(), aggregated_result.values()))).items())
    sorted_result = {**dict.fromkeys(installation_graph.get_periods(), 0.0), **sorted_result}
    period_keys = list(sorted_result.keys())
    resampled_result = TimeSeriesVolumes(periods=Periods(period_keys), values=list(sorted_result.values()), unit=unit).resample(freq=frequency).fill_nan(0)
    return {resampled_result.periods.periods[i]: resampled_result.values[i] for i in range(len(resampled_result))}
