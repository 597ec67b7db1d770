From 3cf04e1b6000458c045b70dec5737d453c986893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:06 +0000
Subject: [PATCH 01/16] fix: look up the clamped period when selecting a subset
 of the variables

get_subset_for_period clamps the requested period to the global period but
looked up the unclamped dates, so a period reaching beyond the global period
raised ValueError.
---
 src/libecalc/common/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/variables.py b/src/libecalc/common/variables.py
index 77ee09a..02b88e2 100644
--- a/src/libecalc/common/variables.py
+++ b/src/libecalc/common/variables.py
@@ -77,8 +77,8 @@ class VariablesMap:
 
         # Check if the start and end of the period of interest are equal to dates in the global time vector
         if period_start in self._time_vector and period_end in self._time_vector:
-            start_index = self._time_vector.index(period.start)
-            end_index = self._time_vector.index(period.end)
+            start_index = self._time_vector.index(period_start)
+            end_index = self._time_vector.index(period_end)
         else:
             raise ProgrammingError(
                 "Trying to access a period that does not exist in the global time vector. Please contact eCalc support."
-- 
2.43.0


From 789fe99968ca2e33a0dcd9531f5dc526864cabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:41 +0000
Subject: [PATCH 02/16] fix: accept an explicit zero as regularity instead of
 replacing it with the default

---
 src/libecalc/domain/regularity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/domain/regularity.py b/src/libecalc/domain/regularity.py
index 5f2efa3..a97fc0c 100644
--- a/src/libecalc/domain/regularity.py
+++ b/src/libecalc/domain/regularity.py
@@ -29,9 +29,12 @@ class Regularity:
     ):
         self.target_period = target_period
         self.expression_evaluator = expression_evaluator
+        if expression_input is None or expression_input in ("", {}):
+            # Nothing specified. Note that an explicit zero is a valid regularity.
+            expression_input = self.default_expression_value()
         try:
             self.temporal_expression = TemporalExpression(
-                expression=expression_input or self.default_expression_value(),
+                expression=expression_input,
                 target_period=target_period,
                 expression_evaluator=expression_evaluator,
             )
-- 
2.43.0


From fd89dfd6f80ce64152cb5a09412f77c95433319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:12 +0000
Subject: [PATCH 03/16] fix: index a rate time series by a single index or a
 list of indices

---
 src/libecalc/common/utils/rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 3dd2b56..a48eecc 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -995,7 +995,7 @@ class TimeSeriesRate(TimeSeries[float]):
             )
         elif isinstance(indices, int):
             return self.__class__(
-                periods=[self.periods[indices]],
+                periods=self.periods[indices],
                 values=[self.values[indices]],
                 regularity=[self.regularity[indices]],
                 unit=self.unit,
@@ -1004,7 +1004,7 @@ class TimeSeriesRate(TimeSeries[float]):
         elif isinstance(indices, list | np.ndarray):
             indices = list(indices)
             return self.__class__(
-                periods=[self.periods[i] for i in indices],
+                periods=self.periods[indices],
                 values=[self.values[i] for i in indices],
                 regularity=[self.regularity[i] for i in indices],
                 unit=self.unit,
-- 
2.43.0


From 836f65e3a58a687f4223bcbf0dae91268144801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 04/16] fix: require rate time series to be adjacent when
 extending one with another

---
 src/libecalc/common/utils/rates.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index a48eecc..9a0e08a 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -798,11 +798,21 @@ class TimeSeriesRate(TimeSeries[float]):
                 "Mismatching rate type. Currently you can not extend stream/calendar day rates with calendar/stream day rates."
             )
 
+        if len(self) > 0 and len(other) > 0:
+            if self.last_date != other.first_date and self.first_date != other.last_date:
+                raise ValueError("Can not extend two TimeSeries when there is a gap in time between them.")
+            if self.last_date == other.first_date:
+                first, second = self, other
+            else:
+                first, second = other, self
+        else:
+            first, second = self, other
+
         return self.__class__(
-            periods=self.periods + other.periods,
-            values=self.values + other.values,
+            periods=first.periods + second.periods,
+            values=first.values + second.values,
             unit=self.unit,
-            regularity=self.regularity + other.regularity,
+            regularity=first.regularity + second.regularity,
             rate_type=self.rate_type,
         )
 
-- 
2.43.0


From bd6116314fefc75b91456028ab712e6df0834c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:58 +0000
Subject: [PATCH 05/16] fix: let an explicit cache size of zero disable the
 cache

---
 src/ecalc_cli/commands/run.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecalc_cli/commands/run.py b/src/ecalc_cli/commands/run.py
index 0976f23..ee18a2f 100644
--- a/src/ecalc_cli/commands/run.py
+++ b/src/ecalc_cli/commands/run.py
@@ -133,8 +133,10 @@ def run(
     if reference_cache_size is not None or flash_cache_size is not None:
         defaults = CacheConfig.default()
         config = CacheConfig(
-            reference_fluid_max_size=reference_cache_size or defaults.reference_fluid_max_size,
-            flash_max_size=flash_cache_size or defaults.flash_max_size,
+            reference_fluid_max_size=(
+                reference_cache_size if reference_cache_size is not None else defaults.reference_fluid_max_size
+            ),
+            flash_max_size=flash_cache_size if flash_cache_size is not None else defaults.flash_max_size,
         )
         NeqSimFluidService.configure(config)
 
-- 
2.43.0


From b58a7e47f6ca1ac8ffa382b0f34f56256ac2afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:07 +0000
Subject: [PATCH 06/16] fix: pair each dated variable expression with its own
 date when dates are unordered

---
 .../yaml/mappers/variables_mapper/variables_mapper.py      | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
index 918fd59..41b347b 100644
--- a/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
+++ b/src/libecalc/presentation/yaml/mappers/variables_mapper/variables_mapper.py
@@ -32,10 +32,11 @@ class VariableProcessor:
         if isinstance(self.variable, YamlSingleVariable):
             return list(self.variable.value.evaluate(variables, fill_length=len(periods)))
         else:
-            variable_periods = Periods.create_periods(sorted(self.variable), include_before=False)
+            variable_dates = sorted(self.variable)
+            variable_periods = Periods.create_periods(variable_dates, include_before=False)
             processed_expressions = {
-                period: variable.value.evaluate(variables, fill_length=len(periods))
-                for period, variable in zip(variable_periods, self.variable.values())
+                period: self.variable[date].value.evaluate(variables, fill_length=len(periods))
+                for period, date in zip(variable_periods, variable_dates)
             }
 
             variable_result = []
-- 
2.43.0


From 4ebd3339af69c3f9c60c919134df5fbacab25a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 07/16] fix: carry the last observed value forward when
 resampling a time series

---
 src/libecalc/common/utils/rates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index 9a0e08a..aebab84 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -199,7 +199,8 @@ class TimeSeries[TimeSeriesValue](BaseModel, ABC):
             self.periods, frequency=freq, include_start_date=include_start_date, include_end_date=include_end_date
         )
         new_time_steps = new_periods.start_dates
-        ds_resampled = ds.reindex(new_time_steps).ffill()
+        # The value at a new time step is the last value observed at or before it, also when that is between new time steps
+        ds_resampled = ds.reindex(new_time_steps, method="ffill").ffill()
 
         return self.__class__(
             periods=new_periods,
-- 
2.43.0


From d9cf90d89b6d498018a6f188624f61fab66ebfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:59 +0000
Subject: [PATCH 08/16] fix: give a sum of rates a finite regularity in periods
 where the rates are zero

---
 src/libecalc/common/utils/rates.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libecalc/common/utils/rates.py b/src/libecalc/common/utils/rates.py
index aebab84..567ae4e 100644
--- a/src/libecalc/common/utils/rates.py
+++ b/src/libecalc/common/utils/rates.py
@@ -776,7 +776,12 @@ class TimeSeriesRate(TimeSeries[float]):
                     periods=self.periods,
                     values=elementwise_sum(self.values, other.values).tolist(),
                     unit=self.unit,
-                    regularity=(sum_calendar_day / sum_stream_day).tolist(),
+                    regularity=np.divide(
+                        sum_calendar_day,
+                        sum_stream_day,
+                        out=np.zeros_like(sum_stream_day),
+                        where=sum_stream_day != 0.0,
+                    ).tolist(),
                     rate_type=self.rate_type,
                 )
         else:
-- 
2.43.0


From 3604d121e0a638d8081bbd722722a28d7fb29f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:49 +0000
Subject: [PATCH 09/16] fix: reject expressions with operands that no operator
 combines

---
 src/libecalc/expression/expression_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libecalc/expression/expression_tree.py b/src/libecalc/expression/expression_tree.py
index 5c0f03a..dafb963 100644
--- a/src/libecalc/expression/expression_tree.py
+++ b/src/libecalc/expression/expression_tree.py
@@ -136,6 +136,9 @@ def get_tree(postfix_tokens: list[Token]) -> Node:
         else:
             stack.append(Node(token=token))
 
+    if len(stack) != 1:
+        raise ValueError("Operands must be separated by operators" if stack else "Expression is empty")
+
     return stack.pop()
 
 
-- 
2.43.0


From 3003f103e49be09074085f03b0f83463bace82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 10/16] fix: keep the !include constructor of one YAML read
 from leaking into later reads

---
 .../yaml/yaml_models/pyyaml_yaml_model.py          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 8fa31b6..86c8c26 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -162,11 +162,11 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
             resources: dict[str, TextIO] | None = None,
         ):
             self.__loader = loader
-            if enable_include and (base_dir or resources):
-                loader.add_constructor(
-                    "!include",
-                    PyYamlYamlModel.IncludeConstructor(base_dir=base_dir, resources=resources),
-                )
+            self.__include_constructor = (
+                PyYamlYamlModel.IncludeConstructor(base_dir=base_dir, resources=resources)
+                if enable_include and (base_dir or resources)
+                else None
+            )
 
         def load(self, yaml_file: ResourceStream):
             class UniqueKeyLoader(self.__loader):  # type: ignore[name-defined]
@@ -188,6 +188,10 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
                         mapping.add(each_key)
                     return super().construct_mapping(node, deep)
 
+            # Constructors are kept on the loader class, use the class created for this read to avoid leaking to other reads
+            if self.__include_constructor is not None:
+                UniqueKeyLoader.add_constructor("!include", self.__include_constructor)
+
             if re.search(COMPONENT_NAME_PATTERN, Path(yaml_file.name).stem) is None:
                 raise YamlError(
                     problem=f"The model file, {yaml_file.name}, contains illegal special characters. "
-- 
2.43.0


From 4d39a8aaf066eb35b9e3e8829d503b83e65b2d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:30 +0000
Subject: [PATCH 11/16] fix: read a YAML resource from its start each time it
 is included

---
 .../presentation/yaml/yaml_models/pyyaml_yaml_model.py        | 4 +++-
 .../presentation/yaml/yaml_models/ruamel_yaml_model.py        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index 86c8c26..f87aa2e 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -130,7 +130,9 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
         def __call__(self, loader: yaml.SafeLoader, node: yaml.ScalarNode):
             resource_name = str(loader.construct_scalar(node=node))
             if self._resources:
-                yaml_resource = ResourceStream(stream=self._resources[resource_name], name=resource_name)
+                resource_stream = self._resources[resource_name]
+                resource_stream.seek(0)  # the same resource can be included several times
+                yaml_resource = ResourceStream(stream=resource_stream, name=resource_name)
                 yaml_data = PyYamlYamlModel._read_yaml_helper(
                     yaml_file=yaml_resource, resources=self._resources, loader=loader.__class__, enable_include=True
                 )
diff --git a/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
index 3d7123d..0ca0ef9 100644
--- a/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/ruamel_yaml_model.py
@@ -80,7 +80,9 @@ class RuamelYamlModel(YamlConfiguration):
                 @classmethod
                 def from_yaml(cls, constructor, node):
                     if resources:
-                        yaml_resource = ResourceStream(name=node.value, stream=resources[node.value])
+                        resource_stream = resources[node.value]
+                        resource_stream.seek(0)  # the same resource can be included several times
+                        yaml_resource = ResourceStream(name=node.value, stream=resource_stream)
                         return RuamelYamlModel._load(
                             yaml_file=yaml_resource,
                             base_dir=base_dir,
-- 
2.43.0


From 8d5250c9020661b5d80c1ce29a27aff8b8c89369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 12/16] fix: a model that could not be mapped was accepted when
 validated a second time

---
 src/libecalc/presentation/yaml/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/model.py b/src/libecalc/presentation/yaml/model.py
index 42c9105..ffc129d 100644
--- a/src/libecalc/presentation/yaml/model.py
+++ b/src/libecalc/presentation/yaml/model.py
@@ -415,8 +415,6 @@ class YamlModel:
 
             reference_service = self._get_reference_service()
 
-            # Is validated, first step, must be set before calling get_graph
-            self._is_validated = True
             # Validate and create the graph used for evaluating the energy model
             model_mapper = EcalcModelMapper(
                 resources=facility_resources,
@@ -429,6 +427,9 @@ class YamlModel:
 
             self._input = model_mapper.from_yaml_to_domain(model_id=self._id, model_name=self._configuration.name)
 
+            # Only a model that could be mapped is valid, otherwise a second call would accept an invalid model
+            self._is_validated = True
+
             return self
         except InvalidVariablesException as e:
             variables_path = YamlPath(keys=("VARIABLES",))
-- 
2.43.0


From 6bee867d0cec87393000d552d2dc7f996e4fa605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:51 +0000
Subject: [PATCH 13/16] fix: report an error in an included YAML file at that
 file, not at the main file

---
 .../presentation/yaml/yaml_models/pyyaml_yaml_model.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index f87aa2e..f76d0bb 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -263,7 +263,7 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
                 mark = e.problem_mark
                 if mark is not None:
                     file_context = FileContext(
-                        name=main_yaml.name,
+                        name=mark.name,
                         start=FileMark(
                             line_number=mark.line + 1,
                             column=mark.column + 1,
@@ -577,7 +577,7 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
 
     def _node_to_file_context(self, data: YamlDict) -> FileContext:
         return FileContext(
-            name=self.name,
+            name=data.start_mark.name,
             start=FileMark(
                 line_number=data.start_mark.line + 1,
                 column=data.start_mark.column,
-- 
2.43.0


From b4066190d0c4759fb204770f872ea08fa85c40a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:10 +0000
Subject: [PATCH 14/16] fix: give each receiver of a common stream its own
 share when overflow changes the order

---
 .../stream_distribution/common_stream_distribution.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libecalc/process/stream_distribution/common_stream_distribution.py b/src/libecalc/process/stream_distribution/common_stream_distribution.py
index 71b0aef..3748765 100644
--- a/src/libecalc/process/stream_distribution/common_stream_distribution.py
+++ b/src/libecalc/process/stream_distribution/common_stream_distribution.py
@@ -66,10 +66,11 @@ class CommonStreamDistribution(StreamDistribution, Generic[T]):
     def _adjust_for_overflow(self) -> dict[T, float]:
         overflow_map: dict[T, list[float]] = defaultdict(list)
         adjusted_rates: dict[T, float] = {}
-        for item_id, rate in zip(self._get_sorted_items(), self._rates, strict=True):
+        rates = dict(zip(self._items, self._rates, strict=True))
+        for item_id in self._get_sorted_items():
             overflow = self._get_overflow_out(item_id)
             overflow_rate = sum(overflow_map[item_id])
-            current_rate = rate + overflow_rate
+            current_rate = rates[item_id] + overflow_rate
             if overflow is not None:
                 item = self._items[item_id]
                 stream = self._fluid_service.create_stream_from_standard_rate(
-- 
2.43.0


From bbbaa8b55908a09737c16730c102d89ee8a7706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:33 +0000
Subject: [PATCH 15/16] fix: flag a turbine as overloaded by the load it is
 given, adjustment included

The maximum load and max_power both apply to the adjusted load; the flag
compared the load before the adjustment, so a turbine loaded beyond its
maximum by the adjustment was reported as a valid operating point.
---
 .../domain/infrastructure/energy_components/turbine/turbine.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
index 219fde3..c72cb4f 100644
--- a/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
+++ b/src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py
@@ -72,7 +72,7 @@ class Turbine:
         load_list = array_to_list(load_adjusted) or []
         efficiency_list = array_to_list(efficiency) or []  # type: ignore[arg-type]
         fuel_usage_list = array_to_list(fuel_usage) or []
-        exceeds_max_list = array_to_list(load > self._maximum_load) or []
+        exceeds_max_list = array_to_list(load_adjusted > self._maximum_load) or []
 
         return TurbineResult(
             load=load_list,
-- 
2.43.0


From d51870f3b92cfdd0d0fa6df30a7d634b0136ff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:59 +0000
Subject: [PATCH 16/16] fix: report a configuration error at the line of the
 element it is about

A lower-case key (a variable name), a date key and a discriminator that pydantic
adds to the location each stopped the search for the line, so the error was
reported at the line of an enclosing element.
---
 .../presentation/yaml/validation_errors.py        |  5 ++++-
 .../yaml/yaml_models/pyyaml_yaml_model.py         | 15 +++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/libecalc/presentation/yaml/validation_errors.py b/src/libecalc/presentation/yaml/validation_errors.py
index 7cd2509..125b49e 100644
--- a/src/libecalc/presentation/yaml/validation_errors.py
+++ b/src/libecalc/presentation/yaml/validation_errors.py
@@ -1,7 +1,7 @@
 import re
 from collections.abc import Sequence
 from dataclasses import dataclass
-from datetime import date
+from datetime import date, datetime
 from typing import Self, Union
 
 import yaml
@@ -66,6 +66,8 @@ class Location:
     def _parse_key(cls, key: str | int) -> int | str | date:
         if isinstance(key, str) and date_repr_regex.fullmatch(key) is not None:
             return cls._parse_date(key)
+        if isinstance(key, str) and datetime_repr_regex.fullmatch(key) is not None:
+            return datetime(*(int(part) for part in re.findall("[0-9]+", key)))
         return key
 
     @classmethod
@@ -89,6 +91,7 @@ yaml.add_representer(YamlList, list_node_representer)
 
 date_repr_pattern = r"datetime\.date\(([0-9]{4}),\s([0-9]{1,2}),\s([0-9]{1,2})\)"
 date_repr_regex = re.compile(date_repr_pattern)
+datetime_repr_regex = re.compile(r"datetime\.datetime\([0-9]{4}(,\s[0-9]+){2,6}\)")
 
 
 @dataclass
diff --git a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
index f76d0bb..a7995a8 100644
--- a/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
+++ b/src/libecalc/presentation/yaml/yaml_models/pyyaml_yaml_model.py
@@ -564,11 +564,12 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
             errors = []
             for error in custom_errors(e):
                 yaml_path = self._get_yaml_path_from_pydantic_loc(error["loc"])
-                file_context = self._get_closest_file_context(yaml_path.keys)
+                location = Location.from_pydantic_loc(yaml_path.keys)
+                file_context = self._get_closest_file_context(location.keys, is_pydantic_loc=True)
                 errors.append(
                     ModelValidationError(
                         message=error["msg"],
-                        location=Location.from_pydantic_loc(yaml_path.keys),
+                        location=location,
                         file_context=file_context,
                         data=None,
                     )
@@ -614,7 +615,7 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
 
     def _get_closest_file_context(
         self,
-        yaml_path: Sequence[str | int | datetime.datetime],
+        yaml_path: Sequence[str | int | datetime.date],
         is_pydantic_loc: bool = False,
     ):
         current_data = self._internal_datamodel
@@ -622,7 +623,8 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
         for key in yaml_path:
             did_alter_data = False
             if isinstance(key, str) and isinstance(current_data, dict | YamlDict):
-                key = key.upper()
+                if key not in current_data:
+                    key = key.upper()
                 if key in current_data:
                     current_data = current_data[key]
                     did_alter_data = True
@@ -632,11 +634,12 @@ class PyYamlYamlModel(YamlValidator, YamlConfiguration):
                     did_alter_data = True
                 except IndexError:
                     pass
-            elif isinstance(key, datetime.datetime) and isinstance(current_data, dict | YamlDict):
+            elif isinstance(key, datetime.date) and isinstance(current_data, dict | YamlDict):
                 # Parse keys to datetime, find the matching value
                 try:
+                    date = datetime_parser(key)
                     current_data = next(
-                        value for inner_key, value in current_data.items() if datetime_parser(inner_key) == key
+                        value for inner_key, value in current_data.items() if datetime_parser(inner_key) == date
                     )
                     did_alter_data = True
                 except (PydanticValidationError, StopIteration):
-- 
2.43.0

