From 8deb95f475d5c1d2d22f51b4d13207cbb7c24375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 01/48] fix: serialise netCDF access of threaded workers

With the threads scheduler and num_workers > 1 several workers opened,
read and wrote netCDF files at the same time; the netCDF/HDF5 libraries
are not thread safe, so runs crashed or failed at random.
---
 metsim/metsim.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3c70448..39113b4 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -49,6 +49,7 @@ from netCDF4 import Dataset
 from cftime import date2num
 from datetime import datetime
 
+from dask.utils import SerializableLock
 from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
@@ -67,6 +68,10 @@ references = '''Thornton, P.E., and S.W. Running, 1999. An improved algorithm fo
 Kimball, J.S., S.W. Running, and R. Nemani, 1997. An improved method for estimating surface humidity from daily minimum temperature. Agricultural and Forest Meteorology, 85:87-98.
 Bohn, T. J., B. Livneh, J. W. Oyler, S. W. Running, B. Nijssen, and D. P. Lettenmaier, 2013a: Global evaluation of MT-CLIM and related algorithms for forcing of ecological and hydrological models, Agr. Forest. Meteorol., 176, 38-49, doi:10.1016/j.agrformet.2013.03.003.'''
 
+# The netCDF/HDF5 libraries are not thread safe and xarray guards only part of
+# its own access to them, so the workers of a threaded run take turns on IO.
+IO_LOCK = SerializableLock('metsim-io')
+
 DEFAULT_TIME_UNITS = 'minutes since 2000-01-01 00:00:00.0'
 
 now = tm.ctime(tm.time())
@@ -799,10 +804,12 @@ def wrap_run_cell(func: callable, params: dict,
 @dask.delayed()
 def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
-    ms = MetSim(params, domain_slice=domain_slice)
-    ms.load_inputs()
+    with IO_LOCK:
+        ms = MetSim(params, domain_slice=domain_slice)
+        ms.load_inputs()
     ms.run_slice()
-    ms.write_chunk(locks=write_locks)
+    with IO_LOCK:
+        ms.write_chunk(locks=write_locks)
 
 
 def chunk_domain(chunks, dims):
-- 
2.43.0


From 2da7ca20b326a52e63c1fe7b71839b4229789ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:49 +0000
Subject: [PATCH 02/48] fix: keep the configuration of MetSim instances
 separate

MetSim.params is a class level dictionary which every instance updated in
place, so options of an earlier run (and its out_vars) silently applied to
later runs in the same process.
---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 39113b4..f45a348 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -185,7 +185,11 @@ class MetSim(object):
         self._client = None
         self._domain_slice = domain_slice
         self.progress_bar = ProgressBar()
-        self.params.update(params)
+        # every instance owns its configuration, the class level dictionary only
+        # holds the defaults
+        self.params = {**MetSim.params, **params}
+        self.params['out_vars'] = {
+            k: dict(v) for k, v in self.params['out_vars'].items()}
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
-- 
2.43.0


From 9529ffa2aaa70d746377dd96f65984aa771fb0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 03/48] fix: keep output metadata of MetSim instances separate

Unit labels, global attributes and output names of an earlier run in the
same process were kept in module level dictionaries and showed up in the
files of later runs (e.g. values in C labelled K).
---
 metsim/io.py     |  4 ++--
 metsim/metsim.py | 31 +++++++++++++++++--------------
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 164335d..380ab1e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -147,7 +147,7 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = metsim.available_outputs[ov]
+            temp[ov] = dict(metsim.available_outputs[ov])
         conf['out_vars'] = temp
     else:
         conf['out_vars'] = {}
@@ -155,7 +155,7 @@ def read_ini_config(config_file, opts):
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = metsim.available_outputs[varname]
+            temp[varname] = dict(metsim.available_outputs[varname])
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
diff --git a/metsim/metsim.py b/metsim/metsim.py
index f45a348..8195285 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -28,6 +28,7 @@ output specified.
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
+import copy
 import itertools
 import json
 import logging
@@ -190,6 +191,8 @@ class MetSim(object):
         self.params = {**MetSim.params, **params}
         self.params['out_vars'] = {
             k: dict(v) for k, v in self.params['out_vars'].items()}
+        # likewise for the metadata, which depends on the configuration
+        self.attrs = copy.deepcopy(attrs)
         logging.captureWarnings(True)
         self.logger = logging.getLogger(__name__)
         self.logger.setLevel(self.params['verbose'])
@@ -239,7 +242,7 @@ class MetSim(object):
         for k, v in out_vars.items():
             if 'units' in v.keys():
                 if v['units'] in converters[k].keys():
-                    attrs[k]['units'] = v['units']
+                    self.attrs[k]['units'] = v['units']
                 else:
                     self.logger.warn(
                         f'Could not find unit conversion for {k} to {v["units"]}!'
@@ -276,13 +279,13 @@ class MetSim(object):
         self.params['state_stop'] = (self.params['start'] -
                                      pd.Timedelta("1 days"))
         if self.params['utc_offset']:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'UTC time',
-                             'standard_name': 'utc_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'UTC time',
+                                  'standard_name': 'utc_time'}
         else:
-            attrs['time'] = {'units': DEFAULT_TIME_UNITS,
-                             'long_name': 'local time at grid location',
-                             'standard_name': 'local_time'}
+            self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
+                                  'long_name': 'local time at grid location',
+                                  'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
         self.met_data[name] = self.met_data['prec'].copy()
@@ -396,7 +399,7 @@ class MetSim(object):
             time_var.calendar = self.params['calendar']
             time_var[:] = date2num(
                 times.to_pydatetime(),
-                units=attrs['time'].get('units', DEFAULT_TIME_UNITS),
+                units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
             dtype_map = {'float64': 'f8', 'float32': 'f4',
@@ -430,18 +433,18 @@ class MetSim(object):
 
                 if isinstance(v, str):
                     v = v.replace("'", "").replace('"', "")
-                attrs['_global'][k] = v
+                self.attrs['_global'][k] = v
 
             # set global attrs
-            for key, val in attrs['_global'].items():
+            for key, val in self.attrs['_global'].items():
                 setattr(ncout, key, val)
 
             # set variable attrs
-            for key, value in attrs.get('time', {}).items():
+            for key, value in self.attrs.get('time', {}).items():
                 setattr(ncout.variables['time'], key, value)
             for varname, varconf  in self.params['out_vars'].items():
                 outname = varconf['out_name']
-                for key, val in attrs.get(varname, {}).items():
+                for key, val in self.attrs.get(varname, {}).items():
                     setattr(ncout.variables[outname], key, val)
 
     def write_chunk(self, locks=None):
@@ -592,8 +595,8 @@ class MetSim(object):
             self.output[varname] = xr.DataArray(
                 data=np.full(shape, np.nan, dtype=dtype),
                 coords=coords, dims=dims,
-                name=varname, attrs=attrs.get(varname, {}))
-        self.output['time'].attrs.update(attrs['time'])
+                name=varname, attrs=self.attrs.get(varname, {}))
+        self.output['time'].attrs.update(self.attrs['time'])
 
     def _aggregate_state(self):
         """Aggregate data out of the state file and load it into `met_data`"""
-- 
2.43.0


From 0da39f223804abc194333bd2d7f9d9f22508b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 04/48] fix: convert air pressure from kPa to hPa by a factor
 of 10

---
 metsim/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/units.py b/metsim/units.py
index c784f5d..3a0fbda 100644
--- a/metsim/units.py
+++ b/metsim/units.py
@@ -36,7 +36,7 @@ converters = {
             },
         'air_pressure': {
             'kPa': lambda x, ts: x,
-            'hPa': lambda x, ts: x * 100.,
+            'hPa': lambda x, ts: x * 10.,
             'Pa': lambda x, ts: x * 1000.,
             },
         'tskc': {
-- 
2.43.0


From a227a15368ef6bd1470f5dadda12211737affe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 05/48] fix: write chunks which split only some of the
 dimensions

---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 8195285..49489be 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -461,7 +461,7 @@ class MetSim(object):
                         outname = varconf['out_name']
                         dims = ncout.variables[outname].dimensions[1:]
                         write_slice = ((slice(None), ) + tuple(
-                            self._domain_slice[d] for d in dims))
+                            self._domain_slice.get(d, slice(None)) for d in dims))
                         ncout.variables[outname][write_slice] = (
                             self.output[varname].sel(time=time_slice).values)
 
-- 
2.43.0


From 9d599dc89bd22e3456681141958d85e4b1a72572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 06/48] fix: create the output directory if it does not exist,
 as documented

---
 metsim/metsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 49489be..3d1349f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -341,6 +341,7 @@ class MetSim(object):
 
     def run(self):
         self._validate_setup()
+        os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
         for times in self._times:
             filename = self._get_output_filename(times)
-- 
2.43.0


From 73cb153ab7c96fdac1efbce1c7b1451fba3eb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 07/48] fix: no division by zero where daylight is shorter than
 a radiation step

At latitudes right at the edge of the polar night the day length was
positive but no radiation step had the sun above the horizon, and the
whole run failed with ZeroDivisionError.
---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index 815654a..f17de4c 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -266,10 +266,10 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
                 tiny_step_per_day - 1))
             tiny_rad_fract[i][tinystep] = dir_flat_topa
 
+        # daylight can be too short for the sun to show up in any time step
         if daylength[i] and sum_flat_potrad > 0:
             tiny_rad_fract[i] /= sum_flat_potrad
 
-        if daylength[i]:
             # Transmittance and potential radiation
             # averaged over daylength
             tt_max0[i] = sum_trans / sum_flat_potrad
-- 
2.43.0


From b44c4598ede6ba9434d3fbd1cee15398b4cac758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 08/48] fix: do not lose radiation where two hour angles share
 a radiation step

In polar day the first and the last steps fall into the same bin and the
second one overwrote the first, so the sub-daily shortwave did not add up
to the daily value.
---
 metsim/physics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/physics.py b/metsim/physics.py
index f17de4c..eab4b0f 100644
--- a/metsim/physics.py
+++ b/metsim/physics.py
@@ -264,7 +264,7 @@ def solar_geom(elev: float, lat: float, lr: float) -> tuple:
             tinystep = int(min(max(
                 (12 * cnst.SEC_PER_HOUR + h * cnst.SEC_PER_RAD) / dt, 0),
                 tiny_step_per_day - 1))
-            tiny_rad_fract[i][tinystep] = dir_flat_topa
+            tiny_rad_fract[i][tinystep] += dir_flat_topa
 
         # daylight can be too short for the sun to show up in any time step
         if daylength[i] and sum_flat_potrad > 0:
-- 
2.43.0


From 207062dc3fe2dc32a28aecc9abd2da30d5a5ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 09/48] fix: align in-memory forcing with the domain

read_data ignored the domain, so chunked runs failed and runs on a
subset or a different cell order were misaligned.
---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index 380ab1e..1865d68 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -313,6 +313,11 @@ def read_data(data_handle, domain=None, is_worker=False,
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
 
+    if domain is not None:
+        data_handle = data_handle.sel({k: domain[k]
+                                       for k in list(domain.dims.keys())
+                                       if k in list(data_handle.dims.keys())})
+
     if start is not None and stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From 33faeaea3dfb62585d94b5ea729bc1fc5041b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 10/48] fix: pass daily mean shortwave through unchanged at
 daily time step

Sub-daily passthrough output treats given shortwave as the mean over the
whole day unless sw_averaging is daylight; daily output multiplied it by
the fraction of daylight regardless.
---
 metsim/metsim.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 3d1349f..ea760bd 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -790,8 +790,11 @@ def wrap_run_cell(func: callable, params: dict,
             start, stop, freq='{}T'.format(params['time_step']),
             calendar=params['calendar'])
     else:
-        # convert srad to daily average flux from daytime flux
-        df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
+        # convert srad to daily average flux from daytime flux - passthrough
+        # shortwave is an average over the whole day already unless stated
+        if (params['method'] != 'passthrough' or
+                params.get('sw_averaging', '') == 'daylight'):
+            df_base['shortwave'] *= df_base['daylength'] / cnst.SEC_PER_DAY
         # If we're outputting daily values, we dont' need to
         # change the output dates - see inside of `if` condition
         # above for more explanation
-- 
2.43.0


From ed518b95cff62b36cef6d189b0bf338be3e67150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 11/48] fix: keep vapor pressure defined and below saturation
 at the record ends

Time steps before the first and after the last interpolation point were
filled from a neighbouring step after the limit to saturation had been
applied; runs of a single day got no vapor pressure, relative humidity or
longwave at all.
---
 metsim/disaggregate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 9e71d51..7ee565e 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -476,10 +476,10 @@ def vapor_pressure(vp_daily: np.array, temp: np.array, t_t_min: np.array,
     vp:
         A sub-daily timeseries of the vapor pressure
     """
-    # Linearly interpolate the values
-    interp = scipy.interpolate.interp1d(t_t_min, vp_daily / cnst.MBAR_PER_BAR,
-                                        bounds_error=False)
-    vp_disagg = interp(ts * np.arange(0, n_out))
+    # Linearly interpolate the values, repeat the first and the last value
+    # at the very beginning and end of the record
+    vp_disagg = np.interp(ts * np.arange(0, n_out), t_t_min,
+                          vp_daily / cnst.MBAR_PER_BAR)
 
     # Account for situations where vapor pressure is higher than
     # saturation point
-- 
2.43.0


From 5095d3436aea3090e5c692fc73435ccb3a234b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 12/48] fix: count the 90 days of state in the calendar of the
 run

For no-leap calendars the state window was shifted by 90 days of the
standard calendar and came out one day short whenever Feb 29 was inside.
---
 metsim/datetime.py | 24 ++++++++++++++++++++++++
 metsim/metsim.py   | 12 +++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index dcd60aa..fbb0300 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -72,6 +72,30 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
                 'Specified arguments are not valid for this calendar')
 
 
+def shift_date(date, delta, calendar='standard'):
+    ''' Return the date which is a time delta away, counted in the calendar
+
+    Parameters
+    ----------
+    date : datetime-like
+    delta : timedelta-like
+        May be negative
+    calendar : string
+        Describes the calendar used in the time calculations
+
+    Returns
+    -------
+    date : pd.Timestamp
+    '''
+    date = pd.Timestamp(date)
+    if calendar not in ['noleap', '365_day']:
+        return date + delta
+    units = units_from_freq('T')
+    num = (date2num(date.to_pydatetime(), units, calendar=calendar) +
+           delta // pd.Timedelta('1 minutes'))
+    return xr.CFTimeIndex([num2date(num, units, calendar)]).to_datetimeindex()[0]
+
+
 def decode_freq(freq):
     if len(freq) > 1:
         r = re.compile('([0-9]+)([a-zA-Z]+)')
diff --git a/metsim/metsim.py b/metsim/metsim.py
index ea760bd..f6afa84 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -55,7 +55,7 @@ from xarray.backends.locks import get_write_lock, combine_locks, NETCDFC_LOCK
 
 import metsim.constants as cnst
 from metsim import io
-from metsim.datetime import date_range
+from metsim.datetime import date_range, shift_date
 from metsim.disaggregate import disaggregate
 from metsim.methods import mtclim, passthrough
 from metsim.physics import solar_geom
@@ -274,10 +274,12 @@ class MetSim(object):
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime()
 
-        self.params['state_start'] = (self.params['start'] -
-                                      pd.Timedelta("90 days"))
-        self.params['state_stop'] = (self.params['start'] -
-                                     pd.Timedelta("1 days"))
+        self.params['state_start'] = shift_date(
+            self.params['start'], -pd.Timedelta("90 days"),
+            self.params['calendar'])
+        self.params['state_stop'] = shift_date(
+            self.params['start'], -pd.Timedelta("1 days"),
+            self.params['calendar'])
         if self.params['utc_offset']:
             self.attrs['time'] = {'units': DEFAULT_TIME_UNITS,
                                   'long_name': 'UTC time',
-- 
2.43.0


From 7f40905237241e2647acb64c235893fbbef39370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:36 +0000
Subject: [PATCH 13/48] fix: period ending time stamps on the last day of
 February without leap years

The stamp one time step after Feb 28 was computed in the standard calendar
as Feb 29, which does not exist in no-leap calendars, and the run failed.
---
 metsim/metsim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f6afa84..531f60b 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -559,7 +559,9 @@ class MetSim(object):
 
         start = pd.Timestamp(prototype['time'].values[0]).to_pydatetime()
         stop = pd.Timestamp(prototype['time'].values[-1]).to_pydatetime()
-        times = date_range(start + offset, stop + offset + delta,
+        calendar = self.params['calendar']
+        times = date_range(shift_date(start, offset, calendar),
+                           shift_date(stop, offset + delta, calendar),
                            freq="{}T".format(self.params['time_step']),
                            calendar=self.params['calendar'])
 
@@ -785,8 +787,9 @@ def wrap_run_cell(func: callable, params: dict,
                 pd.Timedelta("{} minutes".format(params['time_step'])))
 
         if params['period_ending']:
-            start += pd.Timedelta('{} minutes'.format(params['time_step']))
-            stop += pd.Timedelta('{} minutes'.format(params['time_step']))
+            step = pd.Timedelta('{} minutes'.format(params['time_step']))
+            start = shift_date(start, step, params['calendar'])
+            stop = shift_date(stop, step, params['calendar'])
 
         new_times = date_range(
             start, stop, freq='{}T'.format(params['time_step']),
-- 
2.43.0


From 5e61e9f579084b3a2d70e457da539ac9f08eed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 14/48] fix: read binary forcing with any number of variables

The reader always read 4 values per day; files with fewer variables which
extend beyond the run period could not be assembled and were skipped.
---
 metsim/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index 1865d68..f3fa1bf 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -343,7 +343,7 @@ def read_binary(data_handle, domain=None,
     with open(data_handle, 'rb') as f:
         i = 0
         points_read = 0
-        points_needed = 4 * n_days
+        points_needed = n_vars * n_days
         while points_read != points_needed:
             bytes = f.read(2)
             if bytes:
-- 
2.43.0


From 1b6ce917541b1f42ac8a490dfdfd435303f141e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 15/48] fix: report forcing files which can not be read

Truncated or corrupt ascii and binary files of active cells were skipped
silently and the cells came out without data.
---
 metsim/io.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index f3fa1bf..f38edc8 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -237,15 +237,17 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
         try:
             _, lat, lon = os.path.basename(job).split("_")[-3:]
             lat, lon = float(lat), float(lon)
-            if not domain['mask'].sel(lat=lat, lon=lon).values > 0:
-                continue
-            ds = read_funcs[params['forcing_fmt']](
-                job, start=params['start'], stop=params['stop'],
-                calendar=params['calendar'], var_dict=params['forcing_vars'])
-            for var in params['forcing_vars'].keys():
-                met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
+            active = domain['mask'].sel(lat=lat, lon=lon).values > 0
         except (ValueError, KeyError):
+            # not the file of a cell in the domain
             continue
+        if not active:
+            continue
+        ds = read_funcs[params['forcing_fmt']](
+            job, start=params['start'], stop=params['stop'],
+            calendar=params['calendar'], var_dict=params['forcing_vars'])
+        for var in params['forcing_vars'].keys():
+            met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
     return met_data
 
 
-- 
2.43.0


From e06c823c42574a46052c2088026fc1152e851619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 16/48] fix: accept YAML dates for start and stop, as
 documented

YAML reads an unquoted YYYY-MM-DD as a date, which could not be compared
with the times of the forcing.
---
 metsim/metsim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 531f60b..56f95e6 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -264,6 +264,9 @@ class MetSim(object):
                     self.params[p] = datetime(year, month, day)
                 else:
                     self.params[p] = pd.to_datetime(self.params[p])
+            else:
+                # e.g. the dates of a YAML file
+                self.params[p] = pd.Timestamp(self.params[p]).to_pydatetime()
 
         # update calendar from input data (fall back to params version)
         self.params['calendar'] = self.met_data['time'].encoding.get(
-- 
2.43.0


From 26186ad8ea6a7b058dc6fc0bc05941fdbf5fb40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 17/48] fix: binary forcing with a YAML configuration

For binary forcing forcing_vars maps a variable to its scale and type and
must not be inverted; the INI reader knew that, the YAML reader did not.
---
 metsim/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/io.py b/metsim/io.py
index f38edc8..662823e 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -74,7 +74,9 @@ def read_yaml_config(config_file, opts):
     with open(config_file, 'r') as f:
         config = yaml.load(f, Loader=yaml.SafeLoader)
     conf = OrderedDict(config['MetSim'])
-    conf['forcing_vars'] = _invert_dict(OrderedDict(config['forcing_vars']))
+    conf['forcing_vars'] = OrderedDict(config['forcing_vars'])
+    if conf['forcing_fmt'] != 'binary':
+        conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
     conf['out_vars'] = OrderedDict(config['out_vars'])
-- 
2.43.0


From 9e88057468ead7c94fb1201b3a85cd2104e8d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 18/48] fix: capitalization of lw_type and lw_cloud does not
 matter, as documented

---
 metsim/metsim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 56f95e6..6171b55 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -696,7 +696,11 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
-            if not self.params.get(k, None) in v:
+            opt = self.params.get(k, None)
+            if k in ['lw_cloud', 'lw_type']:
+                # capitalization does not matter
+                opt = str(opt).lower()
+            if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
-- 
2.43.0


From d31686b8371b0ecdccc6f19437c9d08e10c9e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 19/48] fix: do not truncate constant variables to the type of
 the forcing

With an integer forcing variable as the template a constant of 2.5 became 2.
---
 metsim/metsim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 6171b55..2e58476 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -321,7 +321,8 @@ class MetSim(object):
                 da_template = self._met_data[list(self._met_data)[0]]
                 for var in constant_vars.keys():
                     self._met_data[var] = xr.full_like(da_template,
-                                                       float(constant_vars[var]))
+                                                       float(constant_vars[var]),
+                                                       dtype=float)
 
             self._validate_force_times(force_times=self._met_data['time'])
         return self._met_data
-- 
2.43.0


From 17f09d83c79719bd0221ab6d05ecc8481a5fa76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 20/48] fix: skip output periods which contain no time step

With a no-leap calendar the daily output period of Feb 29 is empty, as
are periods shorter than the time step, and setting up the run failed.
---
 metsim/metsim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 2e58476..53e8acc 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -574,7 +574,9 @@ class MetSim(object):
         else:
             dummy = pd.Series(np.arange(len(times)), index=times)
             grouper = pd.Grouper(freq=freq)
-            times = [t.index for k, t in dummy.groupby(grouper)]
+            # periods without any output, e.g. Feb 29 if there are no leap days,
+            # don't get a file
+            times = [t.index for k, t in dummy.groupby(grouper) if len(t)]
         return times
 
     def _get_output_filename(self, times):
-- 
2.43.0


From 5fc2a5173e1ba994120d08910fb2163711a5c1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 21/48] fix: give every output file its own name if there are
 several per day

With an out_freq below a day several periods had the same file name, were
written to the same file and all but one of them got lost.
---
 metsim/metsim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 53e8acc..1d86a1f 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -235,6 +235,9 @@ class MetSim(object):
         self._times = self._get_output_times(
             freq=self.params['out_freq'],
             period_ending=self.params['period_ending'])
+        # the dates alone can't tell several files per day apart
+        self._subdaily_files = len(self._times) > len(
+            {(t[0].date(), t[-1].date()) for t in self._times})
 
         self._update_unit_attrs(self.params['out_vars'])
 
@@ -713,6 +716,8 @@ class MetSim(object):
     def get_nc_output_suffix(self, times):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
+        if self._subdaily_files:
+            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
         return template.format(s.year, s.month, s.day,
                                e.year, e.month, e.day,)
 
-- 
2.43.0


From 7ee6ff98a2cc4851c6411ff4265ebf5c1cf55e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 22/48] fix: do not truncate monthly precipitation parameters
 to the type of prec

With integer precipitation forcing t_pk and dur were cut to full minutes.
---
 metsim/metsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 1d86a1f..a44e0b6 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -296,7 +296,7 @@ class MetSim(object):
                                   'standard_name': 'local_time'}
 
     def convert_monthly_param(self, name):
-        self.met_data[name] = self.met_data['prec'].copy()
+        self.met_data[name] = self.met_data['prec'].astype(float)
         months = self.met_data['time'].dt.month
         for m in range(12):
             param = self.domain[name].sel(month=m)
-- 
2.43.0


From d961f29fc7d2db0714cda857574921da08921a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 23/48] fix: make the processes scheduler work

The write locks handed to the workers could not be sent to other
processes; a lock of a multiprocessing manager can, and is shared by them.
---
 metsim/metsim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index a44e0b6..306b944 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -32,6 +32,7 @@ import copy
 import itertools
 import json
 import logging
+import multiprocessing
 import os
 import sys
 import warnings
@@ -352,9 +353,16 @@ class MetSim(object):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
+        manager = None
         for times in self._times:
             filename = self._get_output_filename(times)
             self.setup_netcdf_output(filename, times)
+            if self.params['scheduler'] in ['processes', 'multiprocessing']:
+                # has to be the same lock in all of the processes
+                if manager is None:
+                    manager = multiprocessing.Manager()
+                write_locks[filename] = manager.Lock()
+                continue
             write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
-- 
2.43.0


From 6427a74e6a277262c5a85559c13fa35213bd63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 24/48] fix: use the precipitation parameters of the right
 month

January used the values of February, December none at all.
---
 metsim/metsim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 306b944..de72e13 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -300,8 +300,8 @@ class MetSim(object):
         self.met_data[name] = self.met_data['prec'].astype(float)
         months = self.met_data['time'].dt.month
         for m in range(12):
-            param = self.domain[name].sel(month=m)
-            locations = {'time': self.met_data['time'].isel(time=months == m)}
+            param = self.domain[name].isel(month=m)
+            locations = {'time': self.met_data['time'].isel(time=months == m + 1)}
             self.met_data[name].loc[locations] = param
 
     @property
-- 
2.43.0


From caa2d93a35c8ab69ae22ef6fb5db7a94dad6557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:04 +0000
Subject: [PATCH 25/48] fix: infer start and stop from the forcing, as
 documented

---
 metsim/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index 662823e..ddb299b 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -206,9 +206,11 @@ def process_nc(params: dict, domain: xr.Dataset) -> xr.Dataset:
         "netcdf": read_netcdf,
         "data": read_data
     }
+    # 'forcing' means to begin or end with the forcing data
+    start, stop = [None if isinstance(p, str) and p == 'forcing' else p
+                   for p in (params['start'], params['stop'])]
     return read_funcs[params['forcing_fmt']](
-        params['forcing'], domain=domain,
-        start=params['start'], stop=params['stop'],
+        params['forcing'], domain=domain, start=start, stop=stop,
         calendar=params['calendar'], var_dict=params.get('forcing_vars', None))
 
 
@@ -322,7 +324,7 @@ def read_data(data_handle, domain=None, is_worker=False,
                                        for k in list(domain.dims.keys())
                                        if k in list(data_handle.dims.keys())})
 
-    if start is not None and stop is not None:
+    if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
         data_handle['day_of_year'] = xr.Variable(('time', ), dates.dayofyear)
-- 
2.43.0


From 54561bf0fd76430c3c6388f08142f77000557bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 26/48] fix: do not extrapolate the temperature curve beyond
 its last extreme

---
 metsim/disaggregate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/disaggregate.py b/metsim/disaggregate.py
index 7ee565e..a7cc335 100644
--- a/metsim/disaggregate.py
+++ b/metsim/disaggregate.py
@@ -258,7 +258,9 @@ def temp(t_min: np.array, t_max: np.array, out_len: int,
 
     # Interpolate the values
     interp = scipy.interpolate.PchipInterpolator(time, temp, extrapolate=True)
-    temps = interp(ts * np.arange(0, out_len))
+    # Far east of UTC the record can go on after the last of them, the
+    # polynomials must not be extrapolated there
+    temps = interp(np.clip(ts * np.arange(0, out_len), time[0], time[-1]))
     return temps
 
 
-- 
2.43.0


From 0720228ff8bd3144a4cdd6dcb7f11ae76153a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 27/48] fix: passthrough estimated evaporation as if whole day
 mean shortwave were a daylight mean

---
 metsim/methods/passthrough.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metsim/methods/passthrough.py b/metsim/methods/passthrough.py
index 9e99a57..403e46b 100644
--- a/metsim/methods/passthrough.py
+++ b/metsim/methods/passthrough.py
@@ -36,8 +36,13 @@ def run(df, params):
     if 'tskc' not in df:
         df['tskc'] = tskc(df['tfmax'].values, params)
     if 'pet' not in df:
+        # the supplied shortwave is an average over the whole day unless stated
+        if params.get('sw_averaging', '') == 'daylight':
+            sw_time = df['daylength'].values
+        else:
+            sw_time = cnst.SEC_PER_DAY
         df['pet'] = pet(df['shortwave'].values, df['t_day'].values,
-                        df['daylength'].values, params)
+                        sw_time, params)
     if 'tdew' not in df:
         df['tdew'] = tdew(df['pet'].values, df['t_min'].values,
                           df['seasonal_prec'].values, df['dtr'].values)
-- 
2.43.0


From 91d4cac7e40b0b8900643f122fd1e74ee29faff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 28/48] fix: a failed run left workers behind which went on
 writing after the error was raised

---
 metsim/metsim.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index de72e13..e5ee9fe 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -39,6 +39,7 @@ import warnings
 import time as tm
 from collections import OrderedDict
 from collections.abc import Iterable
+from concurrent.futures import ThreadPoolExecutor
 from getpass import getuser
 
 import numpy as np
@@ -368,18 +369,31 @@ class MetSim(object):
 
         delayed_objs = [wrap_run_slice(self.params, write_locks, dslice)
                         for dslice in self.slices]
-        persisted = dask.persist(delayed_objs, num_workers=self.params['num_workers'])
-        self.progress_bar(persisted)
-        dask.compute(persisted)
-        self.logger.info('Cleaning up...')
+        # whether it succeeds or fails, no worker is left behind when the run ends
+        pool = None
         try:
-            self._client.cluster.close()
-            self._client.close()
-            if self.params['verbose'] == logging.DEBUG:
-                print()
-                print('closed dask cluster/client')
-        except Exception:
-            pass
+            if self.params['scheduler'] in ['threads', 'threading']:
+                pool = ThreadPoolExecutor(int(self.params['num_workers']))
+                persisted = dask.persist(delayed_objs, pool=pool)
+            else:
+                persisted = dask.persist(delayed_objs, num_workers=self.params['num_workers'])
+            self.progress_bar(persisted)
+            if self._client is not None:
+                from distributed import wait
+                wait(persisted)
+            dask.compute(persisted)
+        finally:
+            if pool is not None:
+                pool.shutdown(cancel_futures=True)
+            self.logger.info('Cleaning up...')
+            try:
+                self._client.cluster.close()
+                self._client.close()
+                if self.params['verbose'] == logging.DEBUG:
+                    print()
+                    print('closed dask cluster/client')
+            except Exception:
+                pass
 
     def load_inputs(self, close=True):
         self._domain = self.domain.load()
-- 
2.43.0


From d45a7818b985e4f8c74e7cefc08394552ae2680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 29/48] fix: input files left open by a failed run were closed
 by the garbage collector while other threads used the library

---
 metsim/io.py     | 17 +++++++++++++++--
 metsim/metsim.py | 27 +++++++++++++++++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index ddb299b..bfa4ec9 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -272,10 +272,23 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
                 var_dict=None) -> xr.Dataset:
     """Read in a NetCDF file"""
     if '*' in data_handle:
-        ds = xr.open_mfdataset(data_handle)
+        source = xr.open_mfdataset(data_handle)
     else:
-        ds = xr.open_dataset(data_handle)
+        source = xr.open_dataset(data_handle)
+    try:
+        ds = _prepare_netcdf(source, domain=domain, is_worker=is_worker,
+                             start=start, stop=stop, var_dict=var_dict)
+    except Exception:
+        source.close()
+        raise
+    # selecting from a dataset loses track of how to close its file
+    ds.set_close(source.close)
+    return ds
+
 
+def _prepare_netcdf(ds, domain=None, is_worker=False,
+                    start=None, stop=None, var_dict=None) -> xr.Dataset:
+    """Select and rename what is needed of an open dataset"""
     # Needs to happen first to make sure variable names are correct
     if var_dict is not None:
         var_list = list(var_dict.keys())
diff --git a/metsim/metsim.py b/metsim/metsim.py
index e5ee9fe..0ef4e00 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -308,8 +308,9 @@ class MetSim(object):
     @property
     def domain(self):
         if self._domain is None:
-            self._domain = io.read_domain(self.params).isel(
-                **self._domain_slice)
+            domain = io.read_domain(self.params)
+            self._domain = domain.isel(**self._domain_slice)
+            self._domain.set_close(domain.close)
         return self._domain
 
     @property
@@ -351,6 +352,12 @@ class MetSim(object):
         return xr.open_mfdataset(filenames)
 
     def run(self):
+        try:
+            self._run()
+        finally:
+            self.close_inputs()
+
+    def _run(self):
         self._validate_setup()
         os.makedirs(os.path.abspath(self.params['out_dir']), exist_ok=True)
         write_locks = {}
@@ -400,9 +407,14 @@ class MetSim(object):
         self._met_data = self.met_data.load()
         self._state = self.state.load()
         if close:
-            self._domain.close()
-            self._met_data.close()
-            self._state.close()
+            self.close_inputs()
+
+    def close_inputs(self):
+        """Close the input files.  Left open, they would be closed whenever the
+        garbage is collected, while another thread may use the library."""
+        for ds in [self._domain, self._met_data, self._state]:
+            if ds is not None:
+                ds.close()
 
     def setup_netcdf_output(self, filename, times):
         '''setup a single netcdf file'''
@@ -859,7 +871,10 @@ def wrap_run_slice(params, write_locks, domain_slice=NO_SLICE):
     params['is_worker'] = True
     with IO_LOCK:
         ms = MetSim(params, domain_slice=domain_slice)
-        ms.load_inputs()
+        try:
+            ms.load_inputs()
+        finally:
+            ms.close_inputs()
     ms.run_slice()
     with IO_LOCK:
         ms.write_chunk(locks=write_locks)
-- 
2.43.0


From 7692b64751cfb1829c7c5f841edc6df6703eb454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 30/48] fix: distributed and multiprocessing runs failed to
 load forcing made of several files

---
 metsim/metsim.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 0ef4e00..7c46be9 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -221,8 +221,6 @@ class MetSim(object):
                         scheduler_file=self.params['scheduler'])
                 else:
                     self._client = Client(self.params['scheduler'])
-        else:
-            dask.config.set(scheduler=self.params['scheduler'])
 
         # Set up logging
         # If in verbose mode set up the progress bar
@@ -403,9 +401,10 @@ class MetSim(object):
                 pass
 
     def load_inputs(self, close=True):
-        self._domain = self.domain.load()
-        self._met_data = self.met_data.load()
-        self._state = self.state.load()
+        # workers load what they need themselves, whatever they run on
+        self._domain = self.domain.load(scheduler='synchronous')
+        self._met_data = self.met_data.load(scheduler='synchronous')
+        self._state = self.state.load(scheduler='synchronous')
         if close:
             self.close_inputs()
 
-- 
2.43.0


From a50086411bdb02b46793f4932b3da64a247f12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 31/48] fix: a distributed run hung for ever when a worker died
 while writing

---
 metsim/metsim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 7c46be9..07e2f16 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -369,6 +369,12 @@ class MetSim(object):
                     manager = multiprocessing.Manager()
                 write_locks[filename] = manager.Lock()
                 continue
+            if self._client is not None:
+                # given back when a worker dies with it, which a lock is not
+                from distributed import Semaphore
+                write_locks[filename] = combine_locks([NETCDFC_LOCK, Semaphore(
+                    max_leases=1, name=os.path.abspath(filename))])
+                continue
             write_locks[filename] = combine_locks([NETCDFC_LOCK, get_write_lock(filename)])
         self.logger.info('Starting {} chunks...'.format(len(self.slices)))
 
-- 
2.43.0


From 3d803b09c595200bdf388b6dd66f4ae86ae7758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 32/48] fix: report invalid methods, precipitation types,
 formats and numbers before any output is touched

---
 metsim/metsim.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 07e2f16..f322807 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -703,9 +703,10 @@ class MetSim(object):
                 errs.append("Cannot have empty value for {}".format(each))
 
         # Make sure time step divides evenly into a day
-        if (cnst.MIN_PER_DAY % int(self.params.get('time_step', -1)) or
-                (int(self.params['time_step']) > (6 * cnst.MIN_PER_HOUR) and
-                 int(self.params['time_step']) != cnst.MIN_PER_DAY)):
+        if (not whole or time_step <= 0 or
+                cnst.MIN_PER_DAY % time_step or
+                (time_step > (6 * cnst.MIN_PER_HOUR) and
+                 time_step != cnst.MIN_PER_DAY)):
             errs.append("Time step must be evenly divisible into 1440 "
                         "minutes (24 hours) and less than 360 minutes "
                         "(6 hours). Got {}.".format(self.params['time_step']))
@@ -742,7 +743,7 @@ class MetSim(object):
                             'idso', 'prata']}
         for k, v in opts.items():
             opt = self.params.get(k, None)
-            if k in ['lw_cloud', 'lw_type']:
+            if k in ['lw_cloud', 'lw_type', 'prec_type']:
                 # capitalization does not matter
                 opt = str(opt).lower()
             if opt not in v:
@@ -760,8 +761,19 @@ class MetSim(object):
         return template.format(s.year, s.month, s.day,
                                e.year, e.month, e.day,)
 
+        # Check that every output variable gets a name of its own
+        names = ['time'] + [v.get('out_name', None) for v in
+                            (self.params.get('out_vars', {}) or {}).values()]
+        if None in names:
+            errs.append("Every output variable requires an out_name")
+        elif len(set(names)) < len(names):
+            errs.append("Names of output variables have to be unique")
+
 
 def wrap_run_cell(func: callable, params: dict,
+                'forcing_fmt': formats,
+                'method': list(MetSim.methods),
+                'prec_type': ['uniform', 'triangle', 'mix'],
                   ds: xr.Dataset, state: xr.Dataset, disagg: bool,
                   out_times: pd.DatetimeIndex):
     """
-- 
2.43.0


From f641a4419577418226d1d213e9757c161b7c8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 33/48] fix: report missing state, domain, wind, monthly
 parameters and clashing names before any output is touched

---
 metsim/metsim.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index f322807..9888dc3 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -693,7 +693,7 @@ class MetSim(object):
         # Make sure there is at least one forcing_var
         # They cannot all be constant since we use one as a template
         # for the others
-        if not len(self.params.get('forcing_vars', [])):
+        if not len(self.params.get('forcing_vars', []) or []):
             errs.append("Requires at least one non-constant forcing")
 
         # Parameters that can't be empty strings or None
@@ -712,7 +712,11 @@ class MetSim(object):
                         "(6 hours). Got {}.".format(self.params['time_step']))
 
         # Check for required input variable specification
-        if self.met_data is not None:
+        formats = ['ascii', 'binary', 'netcdf', 'data']
+        if (all(len(self.params.get(k, []) or []) for k in
+                ['forcing', 'forcing_vars', 'domain'])
+                and self.params['forcing_fmt'] in formats
+                and self.met_data is not None):
             required_in = ['t_min', 't_max', 'prec']
             for each in required_in:
                 if each not in self.met_data.variables:
@@ -728,7 +732,7 @@ class MetSim(object):
         out_var_check = ['temp', 'prec', 'shortwave', 'vapor_pressure',
                          'air_pressure', 'rel_humid', 'spec_humid',
                          'longwave', 'tskc', 'wind']
-        if int(self.params.get('time_step', -1)) == 1440:
+        if time_step == 1440:
             out_var_check = daily_out_vars
         for var in self.params.get('out_vars', []):
             if var not in out_var_check:
@@ -757,10 +761,6 @@ class MetSim(object):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
         if self._subdaily_files:
-            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
-        return template.format(s.year, s.month, s.day,
-                               e.year, e.month, e.day,)
-
         # Check that every output variable gets a name of its own
         names = ['time'] + [v.get('out_name', None) for v in
                             (self.params.get('out_vars', {}) or {}).values()]
@@ -769,11 +769,15 @@ class MetSim(object):
         elif len(set(names)) < len(names):
             errs.append("Names of output variables have to be unique")
 
-
-def wrap_run_cell(func: callable, params: dict,
+            return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
+        return template.format(s.year, s.month, s.day,
                 'forcing_fmt': formats,
                 'method': list(MetSim.methods),
                 'prec_type': ['uniform', 'triangle', 'mix'],
+                               e.year, e.month, e.day,)
+
+
+def wrap_run_cell(func: callable, params: dict,
                   ds: xr.Dataset, state: xr.Dataset, disagg: bool,
                   out_times: pd.DatetimeIndex):
     """
-- 
2.43.0


From c13f5cd4d703e49f591072accb9a662d6f0c5c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 34/48] fix: name all problems if the time step is no whole
 number or a variable is unknown

---
 metsim/metsim.py | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9888dc3..ebc6810 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -278,7 +278,7 @@ class MetSim(object):
         assert self.params['start'] >= pd.Timestamp(
             force_times.values[0]).to_pydatetime()
         assert self.params['stop'] <= pd.Timestamp(
-            force_times.values[-1]).to_pydatetime()
+            force_times.values[-1]).to_pydatetime(), "Forcing ends before stop"
 
         self.params['state_start'] = shift_date(
             self.params['start'], -pd.Timedelta("90 days"),
@@ -687,7 +687,7 @@ class MetSim(object):
         errs = [""]
 
         # Make sure there's some input
-        if not len(self.params.get('forcing', [])):
+        if not len(self.params.get('forcing', []) or []):
             errs.append("Requires input forcings to be specified")
 
         # Make sure there is at least one forcing_var
@@ -697,7 +697,7 @@ class MetSim(object):
             errs.append("Requires at least one non-constant forcing")
 
         # Parameters that can't be empty strings or None
-        non_empty = ['out_dir', 'time_step', 'forcing_fmt']
+        non_empty = ['out_dir', 'time_step', 'forcing_fmt', 'domain', 'state']
         for each in non_empty:
             if self.params.get(each, None) is None or self.params[each] == '':
                 errs.append("Cannot have empty value for {}".format(each))
@@ -710,6 +710,12 @@ class MetSim(object):
             errs.append("Time step must be evenly divisible into 1440 "
                         "minutes (24 hours) and less than 360 minutes "
                         "(6 hours). Got {}.".format(self.params['time_step']))
+        try:
+            time_step = int(self.params['time_step'])
+            whole = time_step == float(self.params['time_step'])
+        except (TypeError, ValueError):
+            time_step, whole = -1, False
+
 
         # Check for required input variable specification
         formats = ['ascii', 'binary', 'netcdf', 'data']
@@ -723,11 +729,20 @@ class MetSim(object):
                     errs.append("Input requires {}".format(each))
 
         # Make sure that we are going to write out some data
-        if not len(self.params.get('out_vars', [])):
+        if not len(self.params.get('out_vars', []) or []):
             errs.append("Output variable list must not be empty")
 
         # Check output variables are valid
         daily_out_vars = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure',
+            # wind is passed on, but never estimated
+            if ('wind' in self.params.get('out_vars', [])
+                    and 'wind' not in self.met_data.variables):
+                errs.append("Cannot output wind, which is not in the input")
+            if str(self.params['prec_type']).upper() in ['TRIANGLE', 'MIX']:
+                for each in ['dur', 't_pk']:
+                    if each not in self.domain.variables:
+                        errs.append("Domain requires {} for prec_type {}".format(
+                            each, self.params['prec_type']))
                           'shortwave', 'tskc', 'pet', 'wind', 'daylength']
         out_var_check = ['temp', 'prec', 'shortwave', 'vapor_pressure',
                          'air_pressure', 'rel_humid', 'spec_humid',
@@ -746,8 +761,19 @@ class MetSim(object):
                             'brutsaert', 'satterlund',
                             'idso', 'prata']}
         for k, v in opts.items():
+        # Check that every output variable gets a name of its own
+        names = ['time'] + [v.get('out_name', None) for v in
+                            (self.params.get('out_vars', {}) or {}).values()]
+        if None in names:
+            errs.append("Every output variable requires an out_name")
+        elif len(set(names)) < len(names):
+            errs.append("Names of output variables have to be unique")
+
             opt = self.params.get(k, None)
             if k in ['lw_cloud', 'lw_type', 'prec_type']:
+                'forcing_fmt': formats,
+                'method': list(MetSim.methods),
+                'prec_type': ['uniform', 'triangle', 'mix'],
                 # capitalization does not matter
                 opt = str(opt).lower()
             if opt not in v:
@@ -761,19 +787,8 @@ class MetSim(object):
         s, e = times[[0, -1]]
         template = '{:04d}{:02d}{:02d}-{:04d}{:02d}{:02d}'
         if self._subdaily_files:
-        # Check that every output variable gets a name of its own
-        names = ['time'] + [v.get('out_name', None) for v in
-                            (self.params.get('out_vars', {}) or {}).values()]
-        if None in names:
-            errs.append("Every output variable requires an out_name")
-        elif len(set(names)) < len(names):
-            errs.append("Names of output variables have to be unique")
-
             return '{:%Y%m%d%H%M}-{:%Y%m%d%H%M}'.format(s, e)
         return template.format(s.year, s.month, s.day,
-                'forcing_fmt': formats,
-                'method': list(MetSim.methods),
-                'prec_type': ['uniform', 'triangle', 'mix'],
                                e.year, e.month, e.day,)
 
 
-- 
2.43.0


From aa85d48f81e0b9d06238ae453a119728b8cabdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 35/48] fix: say what is wrong with a period outside of the
 forcing

---
 metsim/metsim.py | 71 ++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index ebc6810..d4dfd17 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -231,15 +231,20 @@ class MetSim(object):
         else:
             # If not in verbose mode, create a dummy function
             self.progress_bar = lambda x: x
-        # Create time vector(s)
-        self._times = self._get_output_times(
-            freq=self.params['out_freq'],
-            period_ending=self.params['period_ending'])
-        # the dates alone can't tell several files per day apart
-        self._subdaily_files = len(self._times) > len(
-            {(t[0].date(), t[-1].date()) for t in self._times})
-
-        self._update_unit_attrs(self.params['out_vars'])
+        try:
+            # Create time vector(s)
+            self._times = self._get_output_times(
+                freq=self.params['out_freq'],
+                period_ending=self.params['period_ending'])
+            # the dates alone can't tell several files per day apart
+            self._subdaily_files = len(self._times) > len(
+                {(t[0].date(), t[-1].date()) for t in self._times})
+
+            self._update_unit_attrs(self.params['out_vars'])
+        except Exception:
+            # if it is the configuration, say what is wrong with it
+            self._validate_setup()
+            raise
 
     def _update_unit_attrs(self, out_vars):
         for k, v in out_vars.items():
@@ -256,6 +261,8 @@ class MetSim(object):
                 v['units'] = available_outputs[k]['units']
 
     def _validate_force_times(self, force_times):
+        if not len(force_times):
+            raise ValueError("No forcing from {start} to {stop}".format(**self.params))
         for p, i in [('start', 0), ('stop', -1)]:
             # infer times from force_times
             if isinstance(self.params[p], str):
@@ -276,7 +283,7 @@ class MetSim(object):
             'calendar', self.params['calendar'])
 
         assert self.params['start'] >= pd.Timestamp(
-            force_times.values[0]).to_pydatetime()
+            force_times.values[0]).to_pydatetime(), "Forcing begins after start"
         assert self.params['stop'] <= pd.Timestamp(
             force_times.values[-1]).to_pydatetime(), "Forcing ends before stop"
 
@@ -702,6 +709,12 @@ class MetSim(object):
             if self.params.get(each, None) is None or self.params[each] == '':
                 errs.append("Cannot have empty value for {}".format(each))
 
+        try:
+            time_step = int(self.params['time_step'])
+            whole = time_step == float(self.params['time_step'])
+        except (TypeError, ValueError):
+            time_step, whole = -1, False
+
         # Make sure time step divides evenly into a day
         if (not whole or time_step <= 0 or
                 cnst.MIN_PER_DAY % time_step or
@@ -710,12 +723,6 @@ class MetSim(object):
             errs.append("Time step must be evenly divisible into 1440 "
                         "minutes (24 hours) and less than 360 minutes "
                         "(6 hours). Got {}.".format(self.params['time_step']))
-        try:
-            time_step = int(self.params['time_step'])
-            whole = time_step == float(self.params['time_step'])
-        except (TypeError, ValueError):
-            time_step, whole = -1, False
-
 
         # Check for required input variable specification
         formats = ['ascii', 'binary', 'netcdf', 'data']
@@ -727,13 +734,6 @@ class MetSim(object):
             for each in required_in:
                 if each not in self.met_data.variables:
                     errs.append("Input requires {}".format(each))
-
-        # Make sure that we are going to write out some data
-        if not len(self.params.get('out_vars', []) or []):
-            errs.append("Output variable list must not be empty")
-
-        # Check output variables are valid
-        daily_out_vars = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure',
             # wind is passed on, but never estimated
             if ('wind' in self.params.get('out_vars', [])
                     and 'wind' not in self.met_data.variables):
@@ -743,6 +743,13 @@ class MetSim(object):
                     if each not in self.domain.variables:
                         errs.append("Domain requires {} for prec_type {}".format(
                             each, self.params['prec_type']))
+
+        # Make sure that we are going to write out some data
+        if not len(self.params.get('out_vars', []) or []):
+            errs.append("Output variable list must not be empty")
+
+        # Check output variables are valid
+        daily_out_vars = ['t_min', 't_max', 't_day', 'prec', 'vapor_pressure',
                           'shortwave', 'tskc', 'pet', 'wind', 'daylength']
         out_var_check = ['temp', 'prec', 'shortwave', 'vapor_pressure',
                          'air_pressure', 'rel_humid', 'spec_humid',
@@ -754,13 +761,6 @@ class MetSim(object):
                 errs.append('Cannot output variable {} at timestep {}'.format(
                     var, self.params['time_step']))
 
-        # Check that the parameters specified are available
-        opts = {'out_precision': ['f4', 'f8'],
-                'lw_cloud': ['default', 'cloud_deardorff'],
-                'lw_type': ['default', 'tva', 'anderson',
-                            'brutsaert', 'satterlund',
-                            'idso', 'prata']}
-        for k, v in opts.items():
         # Check that every output variable gets a name of its own
         names = ['time'] + [v.get('out_name', None) for v in
                             (self.params.get('out_vars', {}) or {}).values()]
@@ -769,11 +769,18 @@ class MetSim(object):
         elif len(set(names)) < len(names):
             errs.append("Names of output variables have to be unique")
 
-            opt = self.params.get(k, None)
-            if k in ['lw_cloud', 'lw_type', 'prec_type']:
+        # Check that the parameters specified are available
+        opts = {'out_precision': ['f4', 'f8'],
                 'forcing_fmt': formats,
                 'method': list(MetSim.methods),
                 'prec_type': ['uniform', 'triangle', 'mix'],
+                'lw_cloud': ['default', 'cloud_deardorff'],
+                'lw_type': ['default', 'tva', 'anderson',
+                            'brutsaert', 'satterlund',
+                            'idso', 'prata']}
+        for k, v in opts.items():
+            opt = self.params.get(k, None)
+            if k in ['lw_cloud', 'lw_type', 'prec_type']:
                 # capitalization does not matter
                 opt = str(opt).lower()
             if opt not in v:
-- 
2.43.0


From f2f302249bc77440522a38885a3ebe9cca2778c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 36/48] fix: report options which are no numbers before any
 output is touched

---
 metsim/metsim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index d4dfd17..9c17803 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -785,6 +785,12 @@ class MetSim(object):
                 opt = str(opt).lower()
             if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
+        for k in ['sw_prec_thresh', 'rain_scalar', 'tdew_tol', 'tday_coef',
+                  'tmax_daylength_fraction', 'lapse_rate']:
+            try:
+                float(self.params[k])
+            except (TypeError, ValueError):
+                errs.append("Invalid option given for {}".format(k))
 
         # If any errors, raise and give a summary
         if len(errs) > 1:
-- 
2.43.0


From 2e5cf5c93dad035b20d014c0160b6a575c0f4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 37/48] fix: quoted booleans in YAML configurations

---
 metsim/io.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index bfa4ec9..b9c3acf 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -79,9 +79,13 @@ def read_yaml_config(config_file, opts):
         conf['forcing_vars'] = _invert_dict(conf['forcing_vars'])
     conf['domain_vars'] = _invert_dict(OrderedDict(config['domain_vars']))
     conf['state_vars'] = _invert_dict(OrderedDict(config['state_vars']))
-    conf['out_vars'] = OrderedDict(config['out_vars'])
-    for k, v in conf['out_vars'].items():
-        if 'units' not in v:
+    # a list of variables, or a section, or both; left out, there are defaults
+    if 'out_vars' in conf or 'out_vars' in config:
+        conf['out_vars'] = OrderedDict(
+            (k, {'out_name': k}) for k in conf.get('out_vars', None) or [])
+        conf['out_vars'].update(config.get('out_vars', None) or {})
+    for k, v in conf.get('out_vars', {}).items():
+        if 'units' not in v and k in metsim.available_outputs:
             v['units'] = metsim.available_outputs[k]['units']
     conf['chunks'] = OrderedDict(config['chunks'])
     if 'constant_vars' in config:
-- 
2.43.0


From 40e0adfe4ebc9d8ce0ebe96806d4550d662b3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 38/48] fix: default and listed output variables in
 configuration files, as documented

---
 metsim/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index b9c3acf..b67d2e7 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -98,6 +98,11 @@ def read_yaml_config(config_file, opts):
     else:
         forcing_files = conf['forcing']
 
+    # Boolean values may be quoted
+    for bool_param in ['utc_offset', 'period_ending']:
+        if isinstance(conf.get(bool_param, None), str):
+            conf[bool_param] = conf[bool_param].strip().lower() == 'true'
+
     # Update the full configuration
     conf.update({"calendar": conf.get('calendar', 'standard'),
                  "scheduler": opts.scheduler,
@@ -153,15 +158,15 @@ def read_ini_config(config_file, opts):
         conf['out_vars'] = _to_list(conf['out_vars'])
         temp = {}
         for ov in conf['out_vars']:
-            temp[ov] = dict(metsim.available_outputs[ov])
+            temp[ov] = dict(metsim.available_outputs.get(ov, {'out_name': ov}))
         conf['out_vars'] = temp
-    else:
+    elif 'out_vars' in config:
         conf['out_vars'] = {}
     # Dict variant
     if 'out_vars' in config:
         temp = {}
         for varname, outname in config['out_vars'].items():
-            temp[varname] = dict(metsim.available_outputs[varname])
+            temp[varname] = dict(metsim.available_outputs.get(varname, {}))
             temp[varname]['out_name'] = outname
         conf['out_vars'].update(temp)
 
-- 
2.43.0


From 2ab0df49a9d0e9bc61e3baff274944f57a084411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 39/48] fix: document the actual defaults of out_precision and
 out_vars

---
 docs/configuration.rst     | 4 ++--
 docs/configuration_ini.rst | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/configuration.rst b/docs/configuration.rst
index 7adc720..febe549 100644
--- a/docs/configuration.rst
+++ b/docs/configuration.rst
@@ -46,7 +46,7 @@ DayMet, PRISM, or GridMET). Defaults to ``mtclim``.
 ``out_prefix :: str``: The output file base name. Defaults to ``forcing``.
 
 ``out_precision :: str``: Precision to use when writing output.  Defaults to
-``f8``.  Can be either ``f4`` or ``f8``.
+``f4``.  Can be either ``f4`` or ``f8``.
 
 ``time_grouper :: str``: Whether to chunk up the timeseries into pieces for
 processing. This option is useful to set for when you are limited on
@@ -94,7 +94,7 @@ Defaults to ``0.45``, range should be between ``0`` and ``1``.
 ``out_vars :: list`` : List of variables to write to output.  Should be a list
 containing valid variables.  The list of valid variables is dependent on which
 simulation method is used, as well as whether disaggregation is used. Defaults
-to ``['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'red_humid']``.
+to ``['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid']``.
 
 ``prec_type :: str``: Type of precipitation disaggregation method to use. Can be
 one of the following: ``uniform``, ``triangle``, or ``mix``. Defaults to
diff --git a/docs/configuration_ini.rst b/docs/configuration_ini.rst
index 8c507b7..07f3dde 100644
--- a/docs/configuration_ini.rst
+++ b/docs/configuration_ini.rst
@@ -47,7 +47,7 @@ the ``forcing`` entry.  Can be one of the following: ``ascii``, ``binary``,
 ``out_prefix :: str``: The output file base name. Defaults to ``forcing``.
 
 ``out_precision :: str``: Precision to use when writing output.  Defaults to
-``f8``.  Can be either ``f4`` or ``f8``.
+``f4``.  Can be either ``f4`` or ``f8``.
 
 ``time_grouper :: str``: Whether to chunk up the timeseries into pieces for
 processing. This option is useful to set for when you are limited on
@@ -95,7 +95,7 @@ Defaults to ``0.45``, range should be between ``0`` and ``1``.
 ``out_vars :: list`` : List of variables to write to output.  Should be a list
 containing valid variables.  The list of valid variables is dependent on which
 simulation method is used, as well as whether disaggregation is used. Defaults
-to ``['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'red_humid']``.
+to ``['temp', 'prec', 'shortwave', 'longwave', 'vapor_pressure', 'rel_humid']``.
 
 ``prec_type :: str``: Type of precipitation disaggregation method to use. Can be
 one of the following: ``uniform``, ``triangle``, or ``mix``. Defaults to
-- 
2.43.0


From e414d175f5bda376ad1ead3d1a824525b8dc8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 40/48] fix: days out of order were taken for consecutive ones,
 hours of in-memory data for missing days

---
 metsim/io.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index b67d2e7..3147dc1 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -295,6 +295,18 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
     return ds
 
 
+def _daily_time(ds: xr.Dataset) -> xr.Dataset:
+    """One time stamp at the beginning of every day, days in their order"""
+    if 'time' in ds.coords:
+        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
+            ds['time'] = ds.indexes['time'].to_datetimeindex()
+        ds['time'] = (ds.indexes['time'] -
+                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+        if not ds.indexes['time'].is_monotonic_increasing:
+            ds = ds.sortby('time')
+    return ds
+
+
 def _prepare_netcdf(ds, domain=None, is_worker=False,
                     start=None, stop=None, var_dict=None) -> xr.Dataset:
     """Select and rename what is needed of an open dataset"""
@@ -317,11 +329,7 @@ def _prepare_netcdf(ds, domain=None, is_worker=False,
                     'Setting sequential coordinate on dimension {}'.format(d))
             ds[d] = np.arange(0, len(ds[d]))
 
-    if 'time' in ds.coords:
-        if isinstance(ds.indexes['time'], xr.CFTimeIndex):
-            ds['time'] = ds.indexes['time'].to_datetimeindex()
-        ds['time'] = (ds.indexes['time'] -
-                      pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+    ds = _daily_time(ds)
 
     if start is not None or stop is not None:
         ds = ds.sel(time=slice(start, stop))
@@ -346,6 +354,8 @@ def read_data(data_handle, domain=None, is_worker=False,
                                        for k in list(domain.dims.keys())
                                        if k in list(data_handle.dims.keys())})
 
+    data_handle = _daily_time(data_handle)
+
     if start is not None or stop is not None:
         data_handle = data_handle.sel(time=slice(start, stop))
         dates = data_handle.indexes['time']
-- 
2.43.0


From d3bd31e95bdd056df00408ed53d45636701bfc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 41/48] fix: the calendar of the forcing file was lost,
 although meant to be used

---
 metsim/datetime.py | 2 +-
 metsim/io.py       | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/metsim/datetime.py b/metsim/datetime.py
index fbb0300..a6836c6 100644
--- a/metsim/datetime.py
+++ b/metsim/datetime.py
@@ -47,7 +47,7 @@ def date_range(start=None, end=None, periods=None, freq='D', tz=None,
     -------
     rng : DatetimeIndex
     '''
-    if calendar in ['standard', 'gregorian', 'propoleptic_gregorian']:
+    if calendar in ['standard', 'gregorian', 'proleptic_gregorian']:
         return pd.date_range(start=start, end=end, periods=periods,
                              freq=freq, tz=tz, normalize=normalize, name=name,
                              inclusive=inclusive, **kwargs)
diff --git a/metsim/io.py b/metsim/io.py
index 3147dc1..a5abcf0 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -298,10 +298,12 @@ def read_netcdf(data_handle, domain=None, is_worker=False,
 def _daily_time(ds: xr.Dataset) -> xr.Dataset:
     """One time stamp at the beginning of every day, days in their order"""
     if 'time' in ds.coords:
+        encoding = ds['time'].encoding
         if isinstance(ds.indexes['time'], xr.CFTimeIndex):
             ds['time'] = ds.indexes['time'].to_datetimeindex()
         ds['time'] = (ds.indexes['time'] -
                       pd.Timedelta(hours=11, minutes=59, seconds=59)).round('D')
+        ds['time'].encoding = encoding
         if not ds.indexes['time'].is_monotonic_increasing:
             ds = ds.sortby('time')
     return ds
-- 
2.43.0


From c846d5311fec2bfc1cf2469cb0057db036915ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 42/48] fix: ascii forcing with other columns than configured
 was silently misread

---
 metsim/io.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metsim/io.py b/metsim/io.py
index a5abcf0..be23b3b 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -270,10 +270,11 @@ def read_ascii(data_handle, domain=None, is_worker=False,
     """Read in an ascii forcing file"""
     dates = date_range(start, stop, calendar=calendar)
     names = list(var_dict.keys())
-    ds = pd.read_csv(data_handle, header=None, delim_whitespace=True,
-                     names=names).head(len(dates))
-    ds.index = dates
-    return ds
+    data = np.loadtxt(data_handle, ndmin=2, max_rows=len(dates), comments=None)
+    if data.shape != (len(dates), len(names)):
+        raise ValueError('{} has {} days of {} columns, requires {} of {}'.format(
+            data_handle, *data.shape, len(dates), len(names)))
+    return pd.DataFrame(data, index=dates, columns=names)
 
 
 def read_netcdf(data_handle, domain=None, is_worker=False,
-- 
2.43.0


From 7af8de719bd02b3ecfec4a3e7d7b749262843c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:22 +0000
Subject: [PATCH 43/48] fix: cells without an ascii or binary forcing file
 silently turned into missing values

---
 metsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index be23b3b..f008026 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -246,6 +246,7 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
                                      coords=coords, dims=dims, name=var)
 
     # Fill in the data
+    missing = domain['mask'] > 0
     for job in params['forcing']:
         try:
             _, lat, lon = os.path.basename(job).split("_")[-3:]
@@ -261,6 +262,10 @@ def process_vic(params: dict, domain: xr.Dataset) -> xr.Dataset:
             calendar=params['calendar'], var_dict=params['forcing_vars'])
         for var in params['forcing_vars'].keys():
             met_data[var].loc[{'lat': lat, 'lon': lon}] = ds[var]
+        missing.loc[{'lat': lat, 'lon': lon}] = False
+    if missing.any():
+        raise ValueError('No forcing file for {} of the cells in the domain'.format(
+            int(missing.sum())))
     return met_data
 
 
-- 
2.43.0


From ebae3ae5420be6d9a40b5b3b105e1ee61b9bdd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:31 +0000
Subject: [PATCH 44/48] fix: in-memory forcing could not have other variables
 with the names of those needed

---
 metsim/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metsim/io.py b/metsim/io.py
index f008026..bb81d6f 100644
--- a/metsim/io.py
+++ b/metsim/io.py
@@ -353,6 +353,8 @@ def read_data(data_handle, domain=None, is_worker=False,
     """Read data directly from an xarray dataset"""
     varlist = list(data_handle.keys())
     if var_dict is not None:
+        # other variables may have the names which these are to get
+        data_handle = data_handle[list(var_dict.keys())]
         data_handle = data_handle.rename(var_dict)
         varlist = list(var_dict.values())
     data_handle = data_handle[varlist]
-- 
2.43.0


From 968d1fe173ea87372b01860f31e2f20d7d2ad379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 45/48] fix: keep the type of the domain's coordinates

Identifiers of hydrologic units given as unsigned (or short) integers were
written with the precision of the output, four bytes of which do not hold
their digits: different units got the same label.
---
 metsim/metsim.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 9c17803..ae3e8d7 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -458,13 +458,9 @@ class MetSim(object):
                 units=self.attrs['time'].get('units', DEFAULT_TIME_UNITS),
                 calendar=time_var.calendar)
 
-            dtype_map = {'float64': 'f8', 'float32': 'f4',
-                         'int64': 'i8', 'int32': 'i4'}
             for dim in self.domain['mask'].dims:
                 dim_vals = self.domain[dim].values
-                dim_dtype = dtype_map.get(
-                    str(dim_vals.dtype), self.params['out_precision'])
-                dim_var = ncout.createVariable(dim, dim_dtype, (dim, ))
+                dim_var = ncout.createVariable(dim, dim_vals.dtype, (dim, ))
                 dim_var[:] = dim_vals
 
             # parameters to not record in the metadata
-- 
2.43.0


From eab6d2d7f47bda4da7c8d6fc5855f9e63d1c71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:49 +0000
Subject: [PATCH 46/48] fix: report chunks and numbers of workers which make no
 sense before any output is touched

Chunks of a dimension which the domain does not have, or of no size, and a
number of threads which is none, raised errors only after the output files
had been created anew.
---
 metsim/metsim.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index ae3e8d7..5b11438 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -193,6 +193,7 @@ class MetSim(object):
         self.params = {**MetSim.params, **params}
         self.params['out_vars'] = {
             k: dict(v) for k, v in self.params['out_vars'].items()}
+        self.params['chunks'] = dict(self.params['chunks'] or {})
         # likewise for the metadata, which depends on the configuration
         self.attrs = copy.deepcopy(attrs)
         logging.captureWarnings(True)
@@ -734,6 +735,10 @@ class MetSim(object):
             if ('wind' in self.params.get('out_vars', [])
                     and 'wind' not in self.met_data.variables):
                 errs.append("Cannot output wind, which is not in the input")
+            for dim in self.params['chunks']:
+                if dim not in self.domain['mask'].dims:
+                    errs.append("Cannot use chunks of {}, which is no dimension"
+                                " of the domain".format(dim))
             if str(self.params['prec_type']).upper() in ['TRIANGLE', 'MIX']:
                 for each in ['dur', 't_pk']:
                     if each not in self.domain.variables:
@@ -788,6 +793,18 @@ class MetSim(object):
             except (TypeError, ValueError):
                 errs.append("Invalid option given for {}".format(k))
 
+        sizes = {'chunks of {}'.format(k): v
+                 for k, v in self.params['chunks'].items()}
+        if self.params['scheduler'] in ['threads', 'threading']:
+            sizes['num_workers'] = self.params['num_workers']
+        for k, v in sizes.items():
+            try:
+                valid = int(v) > 0
+            except (TypeError, ValueError):
+                valid = False
+            if not valid:
+                errs.append("Invalid option given for {}".format(k))
+
         # If any errors, raise and give a summary
         if len(errs) > 1:
             raise Exception("\n  ".join(errs))
-- 
2.43.0


From d8eebe2a1515909f6ebf7c3e1abd084e9c6c21e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 47/48] fix: reject numbers outside their documented range

---
 metsim/metsim.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 5b11438..915ee3e 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -786,11 +786,19 @@ class MetSim(object):
                 opt = str(opt).lower()
             if opt not in v:
                 errs.append("Invalid option given for {}".format(k))
-        for k in ['sw_prec_thresh', 'rain_scalar', 'tdew_tol', 'tday_coef',
-                  'tmax_daylength_fraction', 'lapse_rate']:
+        # numbers, some of which have to be within a range
+        ranges = {'sw_prec_thresh': (-np.inf, np.inf),
+                  'rain_scalar': (0, 1),
+                  'tdew_tol': (0, np.inf),
+                  'tday_coef': (0, 1),
+                  'tmax_daylength_fraction': (0, 1),
+                  'lapse_rate': (-np.inf, np.inf)}
+        for k, (low, high) in ranges.items():
             try:
-                float(self.params[k])
+                valid = low <= float(self.params[k]) <= high
             except (TypeError, ValueError):
+                valid = False
+            if not valid:
                 errs.append("Invalid option given for {}".format(k))
 
         sizes = {'chunks of {}'.format(k): v
-- 
2.43.0


From 879d7374aa22e7e975f5fa55b4b2a3c378a80613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:20 +0000
Subject: [PATCH 48/48] fix: report a state which can not be used before any
 output is touched

Only the workers noticed that the state was missing, too short or lacked
variables, after the files of an earlier run had been replaced by empty ones.
---
 metsim/metsim.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/metsim/metsim.py b/metsim/metsim.py
index 915ee3e..dd658ce 100644
--- a/metsim/metsim.py
+++ b/metsim/metsim.py
@@ -686,6 +686,21 @@ class MetSim(object):
         self.met_data['dtr'] = dtr
         self.met_data['smoothed_dtr'] = sm_dtr
 
+    def _state_errors(self):
+        """What is wrong with the state, which is not loaded"""
+        try:
+            state = io.read_state(self.params, self.domain)
+        except Exception as e:
+            return ["Cannot read state: {}".format(e)]
+        state.close()
+        errs = ["State requires {}".format(each)
+                for each in ['t_min', 't_max', 'prec']
+                if each not in state.variables]
+        if state.sizes.get('time', 0) != 90:
+            errs.append("State requires the 90 days from {} to {}".format(
+                self.params['state_start'], self.params['state_stop']))
+        return errs
+
     def _validate_setup(self):
         """Updates the global parameters dictionary"""
         errs = [""]
@@ -744,6 +759,10 @@ class MetSim(object):
                     if each not in self.domain.variables:
                         errs.append("Domain requires {} for prec_type {}".format(
                             each, self.params['prec_type']))
+            # only the workers load the state
+            if (self._state is None and self.params.get('state', None)
+                    and 'state_start' in self.params):
+                errs += self._state_errors()
 
         # Make sure that we are going to write out some data
         if not len(self.params.get('out_vars', []) or []):
-- 
2.43.0

