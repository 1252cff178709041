From 8048690af574fd8f9a3a5fc1b9d3f2f407dd4d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 01/42] fix: just_one of one run no longer leaks into the next
 run

---
 src/ciceroscm/concentrations_emissions_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index dbf05f9..ab22fe4 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -109,7 +109,8 @@ def check_pamset_consistency(pamset_old, pamset_new):
             )
             pamset_new[pam] = pamset_old[pam]
     for pam, value in pamset_old.items():
-        if pam not in pamset_new:
+        # just_one is optional and applies only to the run it is sent to
+        if pam not in pamset_new and pam != "just_one":
             pamset_new[pam] = value
     return pamset_new
 
-- 
2.43.0


From de38a8890ee46d90b59a5ec7727faf5ed5aa49ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 02/42] fix: do not modify gas, emissions and parameter data
 owned by the caller

An instance wrote natural emissions into gaspam_data, added perturbations
into emissions_data (so a second instance got them twice) and added keys to
pamset_emiconc.
---
 src/ciceroscm/concentrations_emissions_handler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index ab22fe4..44b57d1 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -43,8 +43,7 @@ def check_pamset(pamset):
     dict
         Updated pamset with default values used where necessary
     """
-    if pamset is None:
-        pamset = {}
+    pamset = {} if pamset is None else pamset.copy()
     required = {
         "qbmb": 0.0,
         "qo3": 0.5,
@@ -183,7 +182,7 @@ class ConcentrationsEmissionsHandler:
         pamset : dict
            list of physical parameters to define the run
         """
-        self.df_gas = input_handler.get_data("gaspam")
+        self.df_gas = input_handler.get_data("gaspam").copy()
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
@@ -194,7 +193,7 @@ class ConcentrationsEmissionsHandler:
         self.emis = input_handler.get_data("emissions")
         self.pamset["conc_run"] = input_handler.conc_run()
         if input_handler.optional_pam("perturb_em"):
-            perturb_emissions(input_handler, self.emis)
+            self.emis = perturb_emissions(input_handler, self.emis.copy())
         if input_handler.optional_pam("perturb_forc"):
             self.pamset["forc_pert"] = ForcingPerturbation(input_handler, self.years[0])
         self.pamset["cl_dict"], self.pamset["br_dict"] = make_cl_and_br_dictionaries(
-- 
2.43.0


From 2b701077446d015a279cf8ed49fbcbad01e96c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 03/42] fix: total forcing of hemispherically split forcing
 files is not NaN

---
 src/ciceroscm/input_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 40cbc3d..2b88f22 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -174,7 +174,7 @@ def read_forc(forc_file):
         df_forc = pd.read_csv(forc_file, index_col=0)
         if "total" not in df_forc.columns:
             if "FORC_NH" in df_forc.columns and "FORC_SH" in df_forc.columns:
-                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean()
+                df_forc["total"] = df_forc[["FORC_NH", "FORC_SH"]].mean(axis=1)
             else:
                 df_forc["total"] = df_forc[list(df_forc)].sum(axis=1)
                 df_forc["FORC_NH"] = df_forc["total"]
-- 
2.43.0


From 760a492c3e45fcdeb32bdad5c5cac8d5fa7ed4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 04/42] fix: rf_volc_file and rf_volc_data are not ignored

They were cut as unknown options before they were looked for.
---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 2b88f22..904f2e8 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -274,6 +274,8 @@ class InputHandler:
             "sunvolc": 0,
             "conc_run": False,
             "idtm": 24,
+            "rf_volc_file": 0,
+            "rf_volc_data": 0,
         }
         for key in self.read_methods:
             used[f"{key}_file"] = 0
-- 
2.43.0


From 6d02c10c28838684bec793204b3f60abd3bcc069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 05/42] fix: forcing perturbations of precalculated gases add
 up like all others

Of several rows for the same gas and year only the last counted, and a row
for a year outside the run raised KeyError.
---
 src/ciceroscm/perturbations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index e8bf566..39a7900 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -221,8 +221,7 @@ class ForcingPerturbation:
             return
         for gas in precalc_pert_gases:
             perturb_here = self.perturb_raw[self.perturb_raw.component == gas]
-            precalc_erf.loc[perturb_here.year.values, gas] = (
-                precalc_erf.loc[perturb_here.year.values, gas].values
-                + perturb_here.forcing.values
-            )
+            for row in perturb_here.itertuples(index=False):
+                if row.year in precalc_erf.index:
+                    precalc_erf.loc[row.year, gas] += row.forcing
         return
-- 
2.43.0


From a697b2bd1a2fe287975ad43b16538fd969b5e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 06/42] fix: just_one works for precalculated gases

It raised KeyError for halogenated gases and stratospheric ozone.
---
 src/ciceroscm/concentrations_emissions_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 44b57d1..eb3dd8c 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -704,7 +704,10 @@ class ConcentrationsEmissionsHandler:
         # Adding solar forcing
         # tot_forc = tot_forc + rf_sun
         if "just_one" in self.pamset:
-            tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            if self.pamset["just_one"] in self.forc:
+                tot_forc = self.forc[self.pamset["just_one"]][yr - yr_0]
+            else:
+                tot_forc = self.precalc_dict["precalc_erf"][self.pamset["just_one"]][yr]
             forc_nh, forc_sh = calculate_hemispheric_forcing(
                 self.pamset["just_one"], tot_forc, 0, 0
             )
-- 
2.43.0


From 0e8ec129c956f7a41f9c9f702c1da1dc5e5d0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 07/42] fix: rs_function and rb_function in the instance cfg
 are not ignored

They were put in the parameter set of the concentrations emissions handler,
which cuts them, and not in that of the carbon cycle.
---
 src/ciceroscm/ciceroscm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index f0c6a9b..fa4b74d 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -121,11 +121,12 @@ class CICEROSCM:
             pamset_emiconc["nyend"] = self.cfg["nyend"]
             pamset_emiconc["idtm"] = self.cfg["idtm"]
 
+            pamset_carbon = {}
             for key, value in cfg.items():
                 if key in ["rs_function", "rb_function"]:
-                    pamset_emiconc[key] = value
+                    pamset_carbon[key] = value
             self.ce_handler = ConcentrationsEmissionsHandler(
-                input_handler, pamset_emiconc
+                input_handler, pamset_emiconc, pamset_carbon
             )
             self.feedback_list = self.ce_handler.get_feedback_list()
         self.results = {}
-- 
2.43.0


From 8e70dd6b6a96923e771c67d9e190af8b63252d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 08/42] fix: two layer model counts volcanic forcing once

For arrays, as sent by CICEROSCM, the two hemispheres were added and not
averaged, so the volcanic forcing was twice as large as in the upwelling
diffusion model.
---
 src/ciceroscm/thermal_model/two_layer_ocean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/thermal_model/two_layer_ocean.py b/src/ciceroscm/thermal_model/two_layer_ocean.py
index 683d1ce..740c0c7 100644
--- a/src/ciceroscm/thermal_model/two_layer_ocean.py
+++ b/src/ciceroscm/thermal_model/two_layer_ocean.py
@@ -144,7 +144,7 @@ class TwoLayerOceanModel(
               hemisphere-specific)
             - OHCTOT/OHC_MIXED/OHC_DEEP/OHC700: Ocean heat content diagnostics
         """
-        forc = (forc_nh + forc_sh) / 2 + np.mean(fn_volc + fs_volc)
+        forc = (forc_nh + forc_sh) / 2 + (np.mean(fn_volc) + np.mean(fs_volc)) / 2
 
         # Fast layer temperature change
         dtemp_fast = (
-- 
2.43.0


From 941fe85180b0f9f29af2eb0e6262757281105a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 09/42] fix: results of the two layer model can be written to
 file

Writing raised KeyError for the hemispheric variables it does not have.
---
 src/ciceroscm/ciceroscm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index fa4b74d..1c9ce2b 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -367,7 +367,8 @@ class CICEROSCM:
         list_rib = ["RIB_glob", "RIB_N", "RIB_S"]
         df_rib = pd.DataFrame(data={"Year": indices})
         for vari in list_rib:
-            df_rib[vari] = self.results[vari]
+            if vari in self.results:
+                df_rib[vari] = self.results[vari]
         list_temp = [
             "dT_glob",
             "dT_NH",
@@ -385,7 +386,8 @@ class CICEROSCM:
         else:
             filename_start = "output"
         for vari in list_temp:
-            df_temp[vari] = self.results[vari]
+            if vari in self.results:
+                df_temp[vari] = self.results[vari]
 
         df_ohc.to_csv(
             os.path.join(outdir, f"{filename_start}_ohc.txt"),
-- 
2.43.0


From 8d987d187d1225e3ac0c32df87f43930cf107cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 10/42] fix: aerosol forcing sums include all their components

The components were looked for with names the variable dictionary does not
have, so both the total aerosol and the aerosol-radiation forcing were the
direct sulphate forcing alone.
---
 .../formattingtools/reformat_cscm_results.py          | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 6760bd8..3c4da7c 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -44,7 +44,10 @@ openscm_to_cscm_dict = {
     "Atmospheric Concentrations|N2O": "N2O",
     "Atmospheric Concentrations|Ozone|Tropospheric'": "TROP_O3",
 }
-forc_sums = ["Aerosols", "Aerosols|Direct Effect"]
+forc_sums = {
+    "Aerosols": ["BC", "OC", "SO4_DIR", "SO4_IND"],
+    "Aerosols|Direct Effect": ["BC", "OC", "SO4_DIR"],
+}
 fgas_list = [
     "HFC125",
     "HFC134a",
@@ -177,9 +180,9 @@ def get_data_from_forc_common(
     years = df_temp.Year[:]
     if variable in forc_sums:
         timeseries = np.zeros(len(years))
-        for comp, value in v_dict.items():
-            if variable in comp and value not in forc_sums:
-                timeseries = timeseries + df_temp[value].to_numpy()
+        for comp in forc_sums[variable]:
+            if comp in df_temp.columns:
+                timeseries = timeseries + df_temp[comp].to_numpy()
     elif variable in ("Fgas", "GHG"):
         timeseries = np.zeros(len(years))
         for comp in fgas_list:
-- 
2.43.0


From cf840341238b15076b18adb9aa33a8c2edbced1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 11/42] fix: serial runs return results in the order of the
 configurations

---
 src/ciceroscm/parallel/_parallel_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_parallel_process.py b/src/ciceroscm/parallel/_parallel_process.py
index be9a4f7..3a1ddf8 100644
--- a/src/ciceroscm/parallel/_parallel_process.py
+++ b/src/ciceroscm/parallel/_parallel_process.py
@@ -165,7 +165,7 @@ def _parallel_process(  # pylint:disable=too-many-arguments,too-many-positional-
             desc="Serial runs",
         )
 
-        return rest + front_serial_res
+        return front_serial_res + rest
 
     front_parallel_res = []
     if front_parallel > 0:
-- 
2.43.0


From 077c3be50b4eefd7ad23f7a7f58754af9492df57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 12/42] fix: carbon_cycle_outputs can be switched off

False was treated as True.
---
 src/ciceroscm/concentrations_emissions_handler.py      | 4 ++--
 src/ciceroscm/formattingtools/reformat_cscm_results.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index eb3dd8c..a3016bf 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -951,7 +951,7 @@ class ConcentrationsEmissionsHandler:
                 "conc", results_dict["concentrations"], outdir, self.df_gas["CONC_UNIT"]
             )
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             # Adding carbon cycle outputs here
             # Typically back_calculated emissions for conc_run
             # Airborne fraction
@@ -1024,7 +1024,7 @@ class ConcentrationsEmissionsHandler:
         results["concentrations"] = df_conc
         results["forcing"] = df_forc
 
-        if "carbon_cycle_outputs" in cfg:
+        if cfg.get("carbon_cycle_outputs"):
             results["carbon cycle"] = self.get_carbon_cycle_data(
                 feedback_dict_series=feedback_dict_series
             )
diff --git a/src/ciceroscm/formattingtools/reformat_cscm_results.py b/src/ciceroscm/formattingtools/reformat_cscm_results.py
index 3c4da7c..bc19955 100644
--- a/src/ciceroscm/formattingtools/reformat_cscm_results.py
+++ b/src/ciceroscm/formattingtools/reformat_cscm_results.py
@@ -221,7 +221,7 @@ def get_data_from_em(results, variable):
     df_temp = results["emissions"]
     years = df_temp.Year[:]
     # If concentrations run, CO2 emissions should be taken from carbon cycle back calculation
-    if "Emissions" in results["carbon cycle"].keys() and variable == "CO2":
+    if variable == "CO2" and "Emissions" in results.get("carbon cycle", {}):
         timeseries = results["carbon cycle"][
             "Emissions"
         ].to_numpy()  # pylint:disable=unsubscriptable-object
-- 
2.43.0


From 84996eb5e1eddc3f87ccdb13d86b991da24e4433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 13/42] fix: results of an earlier run do not stay among those
 of the next run

When the next run did not ask for a result the earlier run had (carbon cycle
or all dataframes), the results dictionary kept the earlier run's.
---
 src/ciceroscm/ciceroscm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index 1c9ce2b..5a46f05 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -262,6 +262,7 @@ class CICEROSCM:
         make_plot : bool
             Whether to output plots automatically
         """
+        self.results = {}
         self.initialise_output_arrays()
         # Setting up thermal model with parameters
         # udm = UpwellingDiffusionModel(pamset_udm)
-- 
2.43.0


From 3e330687e10963ad2ac1ab1a6ad9425bdbf48375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 14/42] fix: numpy numbers are numbers

Parameters sent as numpy integers or single precision floats were silently
replaced by default values.
---
 src/ciceroscm/_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/_utils.py b/src/ciceroscm/_utils.py
index 36080a6..285d2ca 100644
--- a/src/ciceroscm/_utils.py
+++ b/src/ciceroscm/_utils.py
@@ -3,6 +3,7 @@ Class for common utility functions
 """
 
 import logging
+from numbers import Real
 
 LOGGER = logging.getLogger(__name__)
 
@@ -35,7 +36,7 @@ def check_numeric_pamset(required, pamset):
                 f"Parameter {pam} not in pamset. Using default value {value}",
             )
             pamset[pam] = value
-        elif not isinstance(pamset[pam], int) and not isinstance(pamset[pam], float):
+        elif not isinstance(pamset[pam], Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {pam} must be a number. Using default value {value}",
             )
@@ -142,7 +143,7 @@ def update_pam_if_numeric(pamset_old, pamset_new, can_change):
                 f"{key} is not a valid parameter to update this version of the Carbon cycle",
             )
             continue
-        if not isinstance(value, int) and not isinstance(value, float):
+        if not isinstance(value, Real):
             LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                 f"Parameter {key} must be a number. {value} will be ignored",
             )
-- 
2.43.0


From b7e522b4da24df7f63d8befcc114bfc4745d3927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 15/42] fix: emissions can start in the first or last year of
 the run, or before it

Halogenated gases raised IndexError when emstart was nystart, used prescribed
concentrations when it was earlier, and when it was nyend.
---
 src/ciceroscm/concentrations_emissions_handler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index a3016bf..28674f0 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -279,7 +279,7 @@ class ConcentrationsEmissionsHandler:
 
     def _precalculate_concentrations_vanilla_gases(self, df_gases_vanilla):
         conc_in_vanilla = self.conc_in.copy()[df_gases_vanilla.index]
-        if self.pamset["conc_run"] or self.pamset["nyend"] <= self.pamset["emstart"]:
+        if self.pamset["conc_run"] or self.pamset["nyend"] < self.pamset["emstart"]:
             return conc_in_vanilla.iloc[
                 self.pamset["nystart"]
                 - conc_in_vanilla.index[0] : self.pamset["nyend"]
@@ -287,15 +287,17 @@ class ConcentrationsEmissionsHandler:
                 + 1
             ]
 
+        emstart = max(self.pamset["emstart"], self.pamset["nystart"])
+        conc_prev = conc_in_vanilla.loc[max(emstart - 1, self.pamset["nystart"])]
         conc_in_vanilla = conc_in_vanilla.iloc[
             self.pamset["nystart"]
-            - conc_in_vanilla.index[0] : self.pamset["emstart"]
+            - conc_in_vanilla.index[0] : emstart
             - conc_in_vanilla.index[0]
         ]
 
         emis_vanilla = self.emis.copy()[df_gases_vanilla.index]
         emis_vanilla = emis_vanilla.iloc[
-            self.pamset["emstart"]
+            emstart
             - emis_vanilla.index[0] : self.pamset["nyend"]
             - emis_vanilla.index[0]
             + 1
@@ -306,7 +308,7 @@ class ConcentrationsEmissionsHandler:
         for i in range(emis.shape[0]):
             emis_now = emis[i, :]
             if i == 0:
-                conc_prev = conc_in_vanilla.iloc[-1, :].to_numpy()
+                conc_prev = conc_prev.to_numpy()
             else:
                 conc_prev = conc_rows[-1]
             conc = emis_now / df_gases_vanilla["BETA"].to_numpy() / q * (
-- 
2.43.0


From d11fdbffc640cf727aa2f615a2779ca306de92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 16/42] fix: emissions data may begin before the start of the
 run

---
 src/ciceroscm/concentrations_emissions_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 28674f0..692aafa 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -1000,9 +1000,9 @@ class ConcentrationsEmissionsHandler:
         cols = cols[-1:] + cols[:-1]
         df_forc = df_forc[cols]
         df_forc.rename(columns={"SO2": "SO4_DIR"}, inplace=True)
-        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).drop(
-            labels=np.arange(self.years[-1] + 1, self.emis.index[-1] + 1), axis=0
-        )
+        df_emis = self.emis.drop(labels=["CO2_FF", "CO2_AFOLU"], axis=1).loc[
+            self.years
+        ]
         df_emis["Year"] = self.years
         df_emis["CO2"] = self.emis["CO2_FF"] + self.emis["CO2_AFOLU"]
         cols = df_emis.columns.tolist()
-- 
2.43.0


From f65d35cb0a5be1602c355764146a14c2befd670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 17/42] fix: fixed values of decay function parameters reach
 the carbon cycle

rb_ and rs_ parameters in setvalues were put in pamset_emiconc, where they
are ignored, unlike sampled ones.
---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index fb91c0d..b6919b4 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -200,7 +200,9 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET:
+            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
+                ("rb_", "rs_")
+            ):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
-- 
2.43.0


From 39930eaf0e19b7a5cc62761f447b5abf396afb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 18/42] fix: all thermal model parameters of a distribution
 reach the thermal model

foan, foas, ebbeta, and deep and k of the two layer model were put in
pamset_emiconc, where they are ignored.
---
 src/ciceroscm/parallel/_configdistro.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b6919b4..b71fb0c 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -83,6 +83,11 @@ ordering_standard_forc = [
     "threstemp",
     "lm",
     "ldtime",
+    "foan",
+    "foas",
+    "ebbeta",
+    "deep",
+    "k",
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
-- 
2.43.0


From 747aa6b58ae44f8c6dd7722eaa6218b01a7cbfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 19/42] fix: meta information read from file is written back

Writing configurations read from a file with meta information replaced the
latter by null.
---
 src/ciceroscm/parallel/distributionrun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/distributionrun.py b/src/ciceroscm/parallel/distributionrun.py
index 0cdb749..79c7aa3 100644
--- a/src/ciceroscm/parallel/distributionrun.py
+++ b/src/ciceroscm/parallel/distributionrun.py
@@ -89,7 +89,9 @@ class DistributionRun:
         meta_info: dict, optional
             dictionary with meta optional information to add to the json file
         """
-        if meta_info is None and self.meta_info is None:
+        if meta_info is None:
+            meta_info = self.meta_info
+        if meta_info is None:
             with open(json_file_name, "w", encoding="utf-8") as wfile:
                 json.dump(self.cfgs, wfile)
         else:
-- 
2.43.0


From b15214b0e7e026aa7b354309b36b2df9831b3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 20/42] fix: columns of volcanic data are consecutive periods
 of the year

With other than one column per time step (seasonal or half-yearly data, or
ldtime other than 12) the columns were cycled through several times a year
or not used up to the end.
---
 src/ciceroscm/thermal_model/upwelling_diffusion_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
index cfc1dad..7756643 100644
--- a/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
+++ b/src/ciceroscm/thermal_model/upwelling_diffusion_model.py
@@ -509,19 +509,20 @@ class UpwellingDiffusionModel(
         dn = np.zeros(lm)
         ds = np.zeros(lm)
         for im in range(self.pamset["ldtime"]):
-            volc_idx = im % len(fn_volc)
+            volc_idx_n = im * len(fn_volc) // self.pamset["ldtime"]
+            volc_idx_s = im * len(fs_volc) // self.pamset["ldtime"]
             if self.pamset["threstemp"] != 0:  # pylint: disable=compare-to-zero
                 self.setup_ebud2(temp1n, temp1s)
 
             dqn = (
                 (im + 1) * forc_nh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fn"]
-                + fn_volc[volc_idx]
+                + fn_volc[volc_idx_n]
             )
             dqs = (
                 (im + 1) * forc_sh * dtyear
                 + (1 - (im + 1) * dtyear) * self.prev_values["fs"]
-                + fs_volc[volc_idx]
+                + fs_volc[volc_idx_s]
             )
             dn[0] = (
                 self.varrying["dtrm1n"] * self.tn[0]
-- 
2.43.0


From 8be3fd5f1eb37915ab4b92ed180c7cced3dda715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 21/42] fix: the configuration dictionary of the caller is not
 modified

---
 src/ciceroscm/ciceroscm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/ciceroscm.py b/src/ciceroscm/ciceroscm.py
index 5a46f05..d6a2200 100644
--- a/src/ciceroscm/ciceroscm.py
+++ b/src/ciceroscm/ciceroscm.py
@@ -98,7 +98,7 @@ class CICEROSCM:
             cfg,
             {"carbon_cycle_model": "default", "thermal_model": "default"},
         )
-        cfg.update(self.cfg)
+        cfg = {**cfg, **self.cfg}
 
         input_handler = InputHandler(cfg)
         self.cfg["rf_run"] = input_handler.optional_pam("forc")
-- 
2.43.0


From 479a531192fa763864a424f5fca5985492feec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:37 +0000
Subject: [PATCH 22/42] fix: solar and volcanic files are ignored unless
 sunvolc is 1

As documented, and as for solar and volcanic data sent directly.
---
 src/ciceroscm/input_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 904f2e8..874b321 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -430,6 +430,8 @@ class InputHandler:
                 self.cfg["rf_volc_n_data"] = self.cfg["rf_volc_data"]
                 self.cfg["rf_volc_s_data"] = self.cfg["rf_volc_data"]
         else:
+            for key in ["rf_volc_n", "rf_volc_s", "rf_sun"]:
+                self.cfg.pop(f"{key}_file", None)
             indices = np.arange(self.cfg["nystart"], self.cfg["nyend"] + 1)
             self.cfg["rf_volc_n_data"] = pd.DataFrame(
                 data=np.zeros((self.cfg["nyend"] - self.cfg["nystart"] + 1, 12)),
-- 
2.43.0


From 3493697520a4b092e03a5a3183dd5906953def72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:15 +0000
Subject: [PATCH 23/42] fix: every chunk of configurations gets its own file

With a file name without .json all chunks were written to the same file, and
a directory name with .json in it was changed as well.
---
 src/ciceroscm/parallel/_configdistro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index b71fb0c..983f959 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -4,6 +4,7 @@ Module to make parameter distributions
 
 import json
 import logging
+import os
 
 import numpy as np
 from scipy.stats import qmc
@@ -316,7 +317,8 @@ class _ConfigDistro:
             start_num = config_num * max_chunk_size
             json_fname_now = None
             if json_fname is not None:
-                json_fname_now = json_fname.replace(".json", f"chunk_{config_num}.json")
+                root, ext = os.path.splitext(json_fname)
+                json_fname_now = f"{root}chunk_{config_num}{ext}"
             config_chunk_list[config_num] = self.make_single_config_list(
                 samples[start_num : start_num + num_this_chunk],
                 numvalues=num_this_chunk,
-- 
2.43.0


From 49a77366f739d27050df029a1a5bd94309a9a152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:15 +0000
Subject: [PATCH 24/42] fix: back calculation of emissions starts from
 preindustrial conditions

It went on from the state the latest run or back calculation had ended in.
---
 src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index a75f473..bf9cd7a 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -329,6 +329,7 @@ class AbstractCarbonCycleModel(ABC):
             Timeseries of estimated emissions to match the concentration and
             temperature timeseries sent
         """
+        self._set_co2_hold()
         prev_co2_conc = self.get_preindustrial_co2_conc()
         em_series = np.zeros(len(co2_conc_series))
         if feedback_dict_series is None:
-- 
2.43.0


From ded2429bce8ad578a6d37c0f1ecfe9991ce8d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:24 +0000
Subject: [PATCH 25/42] fix: parallel runs do not modify the scenario
 dictionaries of the caller

---
 src/ciceroscm/parallel/cscmparwrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index f7a6073..272493f 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -46,7 +46,7 @@ def _execute_run(cfgs, output_variables, scenariodata):
 
     """
     scenariodata = check_numeric_pamset(
-        {"nystart": 1750, "nyend": 2100, "emstart": 1850}, scenariodata
+        {"nystart": 1750, "nyend": 2100, "emstart": 1850}, scenariodata.copy()
     )
     par_wrapper = CSCMParWrapper(scenariodata)
     try:
-- 
2.43.0


From 937c480f2ae60dd7e210eb1299ad3dd62bc438da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:32 +0000
Subject: [PATCH 26/42] fix: the options of the caller are not modified by a
 distribution

---
 src/ciceroscm/parallel/_configdistro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index 983f959..e953098 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -146,7 +146,7 @@ class _ConfigDistro:
             setvalues = set_values_default.copy()
         if distro_dict is None:
             distro_dict = prior_flat.copy()
-        self.options = options
+        self.options = options.copy()
         if "forc" not in options:
             self.options["forc"] = False
         if "method" not in options:
-- 
2.43.0


From e0411daa556a5a6cdb53d8d419a93f5a3cae7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:42 +0000
Subject: [PATCH 27/42] fix: a refused response function does not damage later
 runs

---
 src/ciceroscm/carbon_cycle/carbon_cycle_mod.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
index f95ad8f..fcc694c 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_mod.py
@@ -204,6 +204,15 @@ class CarbonCycleModel(AbstractCarbonCycleModel):
                 "rs_function" in pamset_carbon or "rb_function" in pamset_carbon
             )
 
+            # Refuse inconsistent functions before anything is changed
+            for key in ["rs_function", "rb_function"]:
+                if key in pamset_carbon:
+                    _check_array_consistency(
+                        pamset_carbon[key]["coeffs"],
+                        pamset_carbon[key]["timescales"],
+                        for_rs=key == "rs_function",
+                    )
+
             self.pamset = update_pam_if_numeric(
                 self.pamset,
                 pamset_new=pamset_carbon,
-- 
2.43.0


From f4629644a6e94d817561c2509670c0dc9d63d905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:49 +0000
Subject: [PATCH 28/42] fix: bromine of compounds that also hold chlorine is
 counted

---
 src/ciceroscm/pub_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index 23248a0..d31c170 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -163,7 +163,8 @@ def make_cl_and_br_dictionaries(gases_index):
                 chlor_dict[tracer] = int(tracer.split("Cl")[-1][0])
             else:
                 chlor_dict[tracer] = 1
-        elif "Br" in tracer:
+        # Not elif, as compounds such as CH2BrCl hold both
+        if "Br" in tracer:
             if len(tracer.split("Br")[-1]) > 0 and tracer.split("Br")[-1][0].isdigit():
                 brom_dict[tracer] = int(tracer.split("Br")[-1][0])
             else:
-- 
2.43.0


From 49f0b4bd8169ea0546267acfd4f9c61745cd87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:56 +0000
Subject: [PATCH 29/42] fix: isomers with more than one letter in their name
 can be used

---
 src/ciceroscm/pub_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ciceroscm/pub_utils.py b/src/ciceroscm/pub_utils.py
index d31c170..72e158c 100644
--- a/src/ciceroscm/pub_utils.py
+++ b/src/ciceroscm/pub_utils.py
@@ -118,10 +118,10 @@ def find_num_cl_in_hcfc(tracer):
        Number of chlorine atoms in the compound
     """
     numpart = tracer.split("-")[-1]
-    if not numpart[-1].isdigit():
-        numpart = int(numpart[:-1])
-    else:
-        numpart = int(numpart)
+    while not numpart[-1].isdigit():
+        # Isomers can have several letters such as HCFC-225ca
+        numpart = numpart[:-1]
+    numpart = int(numpart)
     double_bonds = numpart // 1000
     bonds_total = ((numpart % 1000) // 100) * 2 + 4
     hydrogen = (numpart % 100) // 10 - 1
-- 
2.43.0


From a9a31fedd6ab185669bc027f7ec6d78d262517a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:37 +0000
Subject: [PATCH 30/42] fix: emissions given as whole numbers can be perturbed

---
 src/ciceroscm/perturbations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/perturbations.py b/src/ciceroscm/perturbations.py
index 39a7900..f745f26 100644
--- a/src/ciceroscm/perturbations.py
+++ b/src/ciceroscm/perturbations.py
@@ -83,6 +83,8 @@ def perturb_emissions(input_handler, emissions_df):
         tracer = row.component
         if row.component == "CO2" and "CO2" not in emissions_df:
             tracer = "CO2_FF"
+        # Columns of whole numbers are read in as integers
+        emissions_df[tracer] = emissions_df[tracer].astype(float)
         emissions_df.loc[row.year, tracer] = (
             emissions_df[tracer][row.year] + row.emission
         )
-- 
2.43.0


From c736f5ec0b2dd3832732dabfef2689689e328075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:01 +0000
Subject: [PATCH 31/42] fix: gas tables with whole numbers as natural emissions
 can be used

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 692aafa..3b34b14 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -183,6 +183,8 @@ class ConcentrationsEmissionsHandler:
            list of physical parameters to define the run
         """
         self.df_gas = input_handler.get_data("gaspam").copy()
+        # A column of whole numbers is read in as integers
+        self.df_gas["NAT_EM"] = self.df_gas["NAT_EM"].astype(float)
         self.conc = {}
         self.forc = {}
         self.nat_emis_ch4 = input_handler.get_data("nat_ch4")
-- 
2.43.0


From 25d6a14e075263946d11c40bbbc42a5d78f4dc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:01 +0000
Subject: [PATCH 32/42] fix: units are checked also when emissions of some
 species are missing

---
 src/ciceroscm/input_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index 874b321..fd0384f 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -341,11 +341,11 @@ class InputHandler:
                     LOGGER.info(  # pylint: disable=logging-fstring-interpolation
                         f"Missing species {set(df_gas.index) - set(em_header.columns)}"
                     )
-                    return
-                em_header_check = em_header[df_gas.index]
+                df_gas_em = df_gas.loc[df_gas.index.isin(em_header.columns)]
+                em_header_check = em_header[df_gas_em.index]
                 if (
                     em_header_check.loc["Unit", :].to_list()
-                    != df_gas["EM_UNIT"].to_list()
+                    != df_gas_em["EM_UNIT"].to_list()
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From a88098d7f307a779639fe79d4a073bf87e10534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:38 +0000
Subject: [PATCH 33/42] fix: units of land use emissions of CO2 are checked too

---
 src/ciceroscm/input_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/input_handler.py b/src/ciceroscm/input_handler.py
index fd0384f..bbc2371 100644
--- a/src/ciceroscm/input_handler.py
+++ b/src/ciceroscm/input_handler.py
@@ -333,7 +333,9 @@ class InputHandler:
             if "emissions_file" in self.cfg:
                 em_header = pd.read_csv(
                     self.cfg["emissions_file"], sep=r"\s+", index_col=0, nrows=1
-                ).drop(columns=["CO2.1"])
+                )
+                # Emissions of CO2 are in two columns, fossil and land use
+                unit_afolu = em_header.pop("CO2.1")["Unit"]
                 if not set(df_gas.index).issubset(set(em_header.columns)):
                     LOGGER.warning(
                         "The emissions dataset does not contain emissions for all gaspam specied"
@@ -346,6 +348,7 @@ class InputHandler:
                 if (
                     em_header_check.loc["Unit", :].to_list()
                     != df_gas_em["EM_UNIT"].to_list()
+                    or unit_afolu != df_gas["EM_UNIT"]["CO2"]
                 ):
                     raise ValueError(
                         f"Emissions file {self.cfg['emissions_file']} has incompatible units to that of the chosen gaspam file \n Please use compatible emissions"
-- 
2.43.0


From 3c1ffd360a1f1a7006fe74b5b8b194877dd12c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:58 +0000
Subject: [PATCH 34/42] fix: missing prescribed concentrations are not taken as
 zero

---
 src/ciceroscm/concentrations_emissions_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/concentrations_emissions_handler.py b/src/ciceroscm/concentrations_emissions_handler.py
index 3b34b14..f2842f8 100644
--- a/src/ciceroscm/concentrations_emissions_handler.py
+++ b/src/ciceroscm/concentrations_emissions_handler.py
@@ -874,7 +874,7 @@ class ConcentrationsEmissionsHandler:
         for tracer, value_dict in self.conc.items():
             if avoid and tracer in avoid:
                 continue
-            if tracer in self.conc_in:
+            if tracer in self.conc_in or tracer != "TROP_O3":
                 value_dict[yr] = self.conc_in[tracer][yr]
             else:
                 value_dict[yr] = 0
-- 
2.43.0


From ae8d53a267603ea03a437c36e620982d5a54d301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 35/42] fix: search back-calculated emissions outside the first
 guess too

The bisection kept to an interval guessed from the biosphere uptake, so
emissions outside it (weak fertilisation, abrupt or falling
concentrations, few steps a year) were returned as its edge and did not
reproduce the concentrations.
---
 .../carbon_cycle/carbon_cycle_abstract.py     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
index bf9cd7a..545a3c8 100644
--- a/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
+++ b/src/ciceroscm/carbon_cycle/carbon_cycle_abstract.py
@@ -200,11 +200,29 @@ class AbstractCarbonCycleModel(ABC):
         """
         max_guess = initial_max_min_guess[0]
         min_guess = initial_max_min_guess[1]
-        guess = np.mean((min_guess, max_guess))
         hold_dict = self._get_co2_hold_values()
-        estimated_conc = self.co2em2conc(
-            self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
-        )
+
+        def concentration_from(emissions):
+            self._set_co2_hold(hold_dict)
+            return self.co2em2conc(
+                self.pamset["nystart"] + yrix, emissions, feedback_dict=feedback_dict
+            )
+
+        # Make sure the solution lies between the guesses
+        width = max_guess - min_guess
+        for _ in range(maxit):
+            if not concentration_from(max_guess) < co2_conc_now:
+                break
+            min_guess, max_guess = max_guess, max_guess + width
+            width = 2 * width
+        width = max_guess - min_guess
+        for _ in range(maxit):
+            if not concentration_from(min_guess) > co2_conc_now:
+                break
+            min_guess, max_guess = min_guess - width, min_guess
+            width = 2 * width
+        guess = np.mean((min_guess, max_guess))
+        estimated_conc = concentration_from(guess)
         iteration = 0
         while (
             iteration < maxit
@@ -217,10 +235,7 @@ class AbstractCarbonCycleModel(ABC):
             else:
                 min_guess = guess
                 guess = (guess + max_guess) / 2
-            self._set_co2_hold(hold_dict)
-            estimated_conc = self.co2em2conc(
-                self.pamset["nystart"] + yrix, guess, feedback_dict=feedback_dict
-            )
+            estimated_conc = concentration_from(guess)
             iteration = iteration + 1
         return guess
 
-- 
2.43.0


From d3635ea4462235497825672dbb9408af826035b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:02 +0000
Subject: [PATCH 36/42] fix: plot runs with the two-layer thermal model

Plots asked for hemispheric, air and sea results which that model does
not have, and ended the run with a KeyError.
---
 src/ciceroscm/make_plots.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 00ad9a6..d14ff07 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -77,8 +77,10 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(12, 6))
     axs[0].plot(indices, results["RIB_glob"], label="RIB_glob")
     axs[1].plot(indices, results["RIB_glob"], label="RIB_glob")
-    axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
-    axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
+    # Hemispheric results and air and sea parts depend on the thermal model
+    if "RIB_N" in results:
+        axs[1].plot(indices, results["RIB_N"], label="RIB_N", linestyle=":")
+        axs[1].plot(indices, results["RIB_S"], label="RIB_S", linestyle="--")
     fix_plot(
         axs,
         [r"W $\mathrm{m}^{-2}$", r"W $\mathrm{m}^{-2}$"],
@@ -90,6 +92,8 @@ def plot_output1(pamset, results, nystart, nyend):
     fig, axs = plt.subplots(nrows=1, ncols=2, sharex=True, figsize=(14, 6))
 
     for comp in ["dT_glob", "dT_glob_air", "dT_glob_sea"]:
+        if comp not in results:
+            continue
         colours = {"glob": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
         axs[0].plot(
             indices,
@@ -105,6 +109,8 @@ def plot_output1(pamset, results, nystart, nyend):
         "dT_SH_air",
         "dT_SHsea",
     ]:
+        if comp not in results:
+            continue
         if "NH" in comp:
             colours = {"NH": "tab:green", "air": "tab:orange", "sea": "tab:blue"}
             axs[1].plot(
-- 
2.43.0


From 306a1ffded18946b33e0111c91034f98f1b93569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:06 +0000
Subject: [PATCH 37/42] fix: run each configuration of an ensemble with its own
 carbon cycle parameters

Carbon cycle parameters last from one run of an instance to the next, so
a configuration without some of them got those of the configuration run
before it in the same batch, and results depended on the number of
workers.
---
 src/ciceroscm/parallel/cscmparwrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ciceroscm/parallel/cscmparwrapper.py b/src/ciceroscm/parallel/cscmparwrapper.py
index 272493f..2a343c8 100644
--- a/src/ciceroscm/parallel/cscmparwrapper.py
+++ b/src/ciceroscm/parallel/cscmparwrapper.py
@@ -2,6 +2,7 @@
 Module for running CICEROSCM in parallel
 """
 
+import copy
 import logging
 from concurrent.futures import ProcessPoolExecutor
 from itertools import product
@@ -155,6 +156,9 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
             )
         self.resultsreader = CSCMREADER(nystart, nyend)
         self.cscm = CICEROSCM(scenariodata)
+        self.carbon_cycle = None
+        if not self.cscm.cfg["rf_run"]:
+            self.carbon_cycle = copy.deepcopy(self.cscm.ce_handler.carbon_cycle)
         self.scen = scenariodata["scenname"]
         self.model = scenariodata["scenname"]
 
@@ -188,6 +192,10 @@ class CSCMParWrapper:  # pylint: disable=too-few-public-methods
         """
         runs = []
         for pamset in cfgs:
+            if self.carbon_cycle is not None:
+                # Carbon cycle parameters last from run to run, but a configuration
+                # should not be affected by the ones run before it
+                self.cscm.ce_handler.carbon_cycle = copy.deepcopy(self.carbon_cycle)
             self.cscm._run(  # pylint: disable=protected-access
                 {"results_as_dict": True, "carbon_cycle_outputs": carbon_cycle_outputs},
                 pamset_udm=pamset.get("pamset_udm", None),
-- 
2.43.0


From a640cf216898d840be4e07c030ea0249016ad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:19 +0000
Subject: [PATCH 38/42] fix: parameters of the box carbon cycle in
 distributions go to the carbon cycle

---
 src/ciceroscm/parallel/_configdistro.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ciceroscm/parallel/_configdistro.py b/src/ciceroscm/parallel/_configdistro.py
index e953098..4f58cbc 100644
--- a/src/ciceroscm/parallel/_configdistro.py
+++ b/src/ciceroscm/parallel/_configdistro.py
@@ -10,6 +10,7 @@ import numpy as np
 from scipy.stats import qmc
 
 from ..carbon_cycle.carbon_cycle_mod import CARBON_CYCLE_MODEL_REQUIRED_PAMSET
+from ..carbon_cycle.carbon_cycle_mod_box import CarbonCycleModel as BoxCarbonCycleModel
 
 LOGGER = logging.getLogger(__name__)
 
@@ -92,6 +93,12 @@ ordering_standard_forc = [
 ]
 """list: Containing a default ordering of parameters for forcing run"""
 
+carbon_cycle_pams = {
+    **CARBON_CYCLE_MODEL_REQUIRED_PAMSET,
+    **BoxCarbonCycleModel.carbon_cycle_model_required_pamset,
+}
+"""dict: Containing the parameters read by any of the carbon cycle models"""
+
 set_values_default = {
     "threstemp": 7.0,
     "lm": 40,
@@ -206,9 +213,7 @@ class _ConfigDistro:
         for pam, value in self.setvalues.items():
             if pam in ordering_standard_forc:
                 self.pamset_udm_start[pam] = value
-            elif pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET or pam.startswith(
-                ("rb_", "rs_")
-            ):
+            elif pam in carbon_cycle_pams or pam.startswith(("rb_", "rs_")):
                 self.pamset_carbon_start[pam] = value
             else:
                 self.pamset_emiconc_start[pam] = value
@@ -363,10 +368,7 @@ class _ConfigDistro:
             for j, pam in enumerate(self.ordering):
                 if pam in ordering_standard_forc:
                     pamset_udm[pam] = samples[i, j]
-                elif (
-                    not self.options["forc"]
-                    and pam in CARBON_CYCLE_MODEL_REQUIRED_PAMSET
-                ):
+                elif not self.options["forc"] and pam in carbon_cycle_pams:
                     pamset_carbon[pam] = samples[i, j]
                 elif not self.options["forc"] and pam.startswith(("rb_", "rs_")):
                     pamset_carbon[pam] = samples[i, j]
-- 
2.43.0


From ec1a3ce390de7844c65fe1db0d4f4b5a336b252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:58 +0000
Subject: [PATCH 39/42] fix: use float water properties so integer layer depths
 of any type do not overflow

---
 src/ciceroscm/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ciceroscm/constants.py b/src/ciceroscm/constants.py
index 0b4c9c4..3f2c757 100644
--- a/src/ciceroscm/constants.py
+++ b/src/ciceroscm/constants.py
@@ -13,8 +13,8 @@ SEC_DAY = 86400  # Seconds per day
 DAY_YEAR = 365.0  # Days per year (simplified, no leap years)
 
 # Water properties (seawater)
-WATER_DENSITY = 1000  # kg/m^3 - Density of seawater
-WATER_HEAT_CAPACITY = 4184  # J/kg/K - Specific heat capacity of seawater
+WATER_DENSITY = 1000.0  # kg/m^3 - Density of seawater
+WATER_HEAT_CAPACITY = 4184.0  # J/kg/K - Specific heat capacity of seawater
 
 # Earth surface areas
 OCEAN_AREA = 3.61e14  # m^2 - Global ocean surface area
-- 
2.43.0


From 0e9eb58d25a952bb85ed1a46e3a08f81b9160ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:53 +0000
Subject: [PATCH 40/42] fix: plot figures with a single row of panels

With 33 to 36 components to plot the last figure has one row, for which
plt.subplots gives a one-dimensional array, and the run ended in an
IndexError before the temperature and heat content files were written.
---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index d14ff07..61dfa2c 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -183,7 +183,7 @@ def plot_output2(
             if c == 32:
                 maxrows = int(np.ceil((len(comps) - 32) / 4))
             fig, axs = plt.subplots(
-                nrows=maxrows, ncols=4, sharex=True, figsize=(15, 10)
+                nrows=maxrows, ncols=4, sharex=True, squeeze=False, figsize=(15, 10)
             )
             if var == "forc":
                 title = (
-- 
2.43.0


From ea832ec5d39aeff6c4144d5614420b8f47c06065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:53 +0000
Subject: [PATCH 41/42] fix: plot forcing also when the gas table lacks a
 component not plotted

The components left out of the forcing plots need not be in the gas table
(NH3 or the biomass burning aerosols, for example), but their absence
ended the run in a KeyError.
---
 src/ciceroscm/make_plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index 61dfa2c..c60b3c6 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -173,7 +173,9 @@ def plot_output2(
         df_in = df_in.drop(labels=cut, axis=1)
     elif var == "forc":
         df_in = df_in.drop(
-            labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"], axis=1
+            labels=["NOx", "CO", "NMVOC", "NH3", "BMB_AEROS_OC", "BMB_AEROS_BC"],
+            axis=1,
+            errors="ignore",
         )
     years = df_in["Year"]
     comps = df_in.columns[1:]
-- 
2.43.0


From 8bd1f4e8b7b84e0c030158c24ea48607a9aed185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:41 +0000
Subject: [PATCH 42/42] fix: plot every forcing component instead of the year

The forcing table does not have the year in its first column, so that the
first component was left out of the forcing plots and the year was plotted
as if it were a forcing.
---
 src/ciceroscm/make_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ciceroscm/make_plots.py b/src/ciceroscm/make_plots.py
index c60b3c6..65530a1 100644
--- a/src/ciceroscm/make_plots.py
+++ b/src/ciceroscm/make_plots.py
@@ -178,7 +178,7 @@ def plot_output2(
             errors="ignore",
         )
     years = df_in["Year"]
-    comps = df_in.columns[1:]
+    comps = df_in.columns.drop("Year")
     for c, comp in enumerate(comps):
         if c in [0, 16, 32]:
             maxrows = 4
-- 
2.43.0

