From befa09bda7fda7adfc53d7195aa211969474092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 01/35] fix: moveout reference delay times were cached without
 the reference slowness

After the first moveout correction with a given phase and model, all further
corrections with a different value of ref silently used the first one.
---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..5718cd0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[(phase, ref)]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[(phase, ref)] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 85db86cd1355c0fd73d62ae1732c48a6098707c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 02/35] fix: moveout returned NaNs if the reference ray turns
 above the ray of the trace

Delay times are only valid down to the depth reached by both rays.
---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 5718cd0..3c5d594 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t) | np.isnan(t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From 7d42654dfb086a108214e788c6d2b7309583b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 03/35] fix: moveout of S multiples

Samples before the last tabulated delay time were mapped to the onset, which
made the interpolation nodes non-monotonic and wiped out the data. The times
of the samples before the onset were off by one sample.
---
 rf/simple_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 3c5d594..8aa1e7e 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -169,10 +169,10 @@ class SimpleModel(object):
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
-                time0 = st.starttime - st.onset + index0 * st.delta
+                time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
+                t = time0 - np.arange(index0) * st.delta
+                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
             else:
-- 
2.43.0


From ea1111316affc80ef5084e262d34a047a9e2d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 04/35] fix: delay times belong to the depths of the model

calculate_delay_times returned the delay times at the bottom of the layers,
but is used together with the depths of the layer tops (e.g. for the depth
axis of the profile plot), which is off by one model layer.
---
 rf/simple_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 8aa1e7e..a629e3d 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -111,7 +111,8 @@ class SimpleModel(object):
         qp, qs = self.calculate_vertical_slowness(slowness, phase=phase)
         dt = (qp * phase.count('P') + qs * phase.count('S') -
               2 * (qp if phase[0] == 'P' else qs)) * self.dz
-        return np.cumsum(dt)
+        # delay time at the top of each layer, zero at the surface
+        return np.hstack((0, np.cumsum(dt)[:-1]))
 
     def stretch_delay_times(self, slowness, phase='Ps', ref=6.4):
         """
-- 
2.43.0


From bbda3bb19fea758945d17ead1e287e49f3ae0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 05/35] fix: SimpleModel did not accept lists if n is not given

---
 rf/simple_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index a629e3d..a895148 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -67,6 +67,7 @@ class SimpleModel(object):
 
     def __init__(self, z, vp, vs, n=None):
         assert len(z) == len(vp) == len(vs)
+        z, vp, vs = (np.asarray(x, dtype=float) for x in (z, vp, vs))
         if n is not None:
             z = _interpolate_n(z, n)
             vp = _interpolate_n(vp, n)
-- 
2.43.0


From fd0e7099b0f9a26ea15186658c2d2c7447d2fc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 06/35] fix: rfstats ignored event or station if only one of
 them was given

The other one can be defined by the stats object.
---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..1e5d912 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -700,7 +700,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
+    if event is not None or station is not None:
         stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
-- 
2.43.0


From 54a1a13f0ddc5837cf35d4d0173b9b7b167de8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 07/35] fix: stack used the metadata of the first trace in the
 stream for all ids

Station coordinates, onset etc. have to be taken from a trace with the same id.
---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 1e5d912..821aa3f 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -410,11 +410,12 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            traces_id = [tr for tr in self if tr.id == id]
+            tr = traces_id[0]
+            data = np.mean([tr.data for tr in traces_id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 98f9cc0ff288c5fd1df0b9ea334e0c0e0bc1606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 08/35] fix: deconv_waterlevel failed with normalize=None for a
 single array or return_info

The names rf, rf_src and norm were only defined if the results are normalized.
---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..05017a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,7 +229,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
             norm = 1 / max(rf_src)
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From e333a3ffbb9fd9b7eafb4ac172cad91d55720cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 09/35] fix: deconv_iterative did not accept a single response
 array

---
 rf/deconvolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 05017a8..5d5ada4 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,9 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = np.ndim(rsp[0]) == 0  # rsp is a single array
+    if flag:
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,6 +521,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
     return RF_out, it_out, rms_out
 
 
-- 
2.43.0


From d20ba31b2422805ba79ad6c33e80cf1fbb27d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 10/35] fix: failing data request aborted the whole batch run

The get_waveforms function returned by init_data prints the error and returns
None, which was not handled by iter_event_data.
---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..52525c4 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -85,6 +85,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # get_waveforms function already handled the error
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From 9c1ebecc870b646b7c6176a5db3a52acf22f26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 11/35] fix: stream of harmonics could not be written to H5
 files

There is no special H5 index for this type of stream, use the default one.
---
 rf/rfstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 821aa3f..72bdfb3 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -202,6 +202,8 @@ class RFStream(Stream):
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
+            if index not in _H5INDEX:  # e.g. harmonics, use default index
+                index = None
             if index:
                 import obspyh5
                 old_index = obspyh5._INDEX
-- 
2.43.0


From 5eb56de8430627d4d93f7d2cd20ae2935045eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 12/35] fix: failed write left stream and H5 index in a
 modified state

---
 rf/rfstream.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 72bdfb3..98fdff0 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -194,26 +194,30 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
-        for tr in self:
-            tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
-        if format.upper() == 'H5':
-            index = self.type
-            if index is None and 'event_time' in self[0].stats:
-                index = 'rf'
-            if index not in _H5INDEX:  # e.g. harmonics, use default index
-                index = None
-            if index:
-                import obspyh5
-                old_index = obspyh5._INDEX
-                obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
+        stations = [tr.stats.station for tr in self]
+        old_index = None
+        try:
             for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+                tr._write_format_specific_header(format, sh_compat=sh_compat)
+                if format.upper() == 'Q':
+                    tr.stats.station = tr.id
+            if format.upper() == 'H5':
+                index = self.type
+                if index is None and 'event_time' in self[0].stats:
+                    index = 'rf'
+                if index not in _H5INDEX:  # e.g. harmonics, use default index
+                    index = None
+                if index:
+                    import obspyh5
+                    old_index = obspyh5._INDEX
+                    obspyh5.set_index(_H5INDEX[index])
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            # restore station codes and index, also if writing fails
+            if old_index is not None:
+                obspyh5.set_index(old_index)
+            for tr, station in zip(self, stations):
+                tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From bb08ce2ce76edd6d14ad826a71cb8147d95803b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 13/35] fix: components header was missing for four of five
 unmodeled harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From 77893f384a0e09b427defe81567968ed9e49f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 14/35] fix: plot_rf failed with show_vlines=True and
 show_traces=False

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..a319b1a 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -136,6 +136,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
                 for l in ax.get_xticklabels():
                     l.set_fontsize('small')
             ax.xaxis.set_minor_locator(AutoMinorLocator())
+    aligner_color = "#a0a0a080"
     if show_traces:
         # set x and y limits
         ax1.set_xlim(*xlim)
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From c52de1239abb8b37d7c03e721050d1146a4d8f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 15/35] fix: plot_harmonics scaled second stream by the wrong
 maximum

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index a319b1a..493394c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From 302a594be1a6eb5885e734d092fc42d30d00f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 16/35] fix: command given more than once was not detected for
 data command

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..0da0169 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -255,7 +255,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
-- 
2.43.0


From 0521369c6f4699a7cc85b7965a4ecc859679eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 17/35] fix: deconvolve trimmed and tapered source trace if it
 is not a response

---
 rf/deconvolve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 5d5ada4..b623894 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -118,8 +118,7 @@ def deconvolve(stream, method='time', func=None,
 #    if winsrc[1] > lenrsp_sec - onset_sec:
 #        winsrc[1] = lenrsp_sec - onset_sec
     # prepare source and response list
-    if src in rsp:
-        src = src.copy()
+    src = src.copy()
     src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
     src.taper(max_percentage=None, max_length=winsrc[2])
     tshift = -winsrc[0]
-- 
2.43.0


From fe8dd62065120a28b7a1ee47f1c6796ea6edfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 18/35] fix: rf ignored the stream returned by deconvolve

---
 rf/rfstream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 98fdff0..6fa28f3 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -344,9 +344,15 @@ class RFStream(Stream):
         if deconvolve:
             for stream3c in iter3c(self):
                 kwargs.setdefault('winsrc', method)
+                old = [id(tr) for tr in stream3c]
                 stream3c.deconvolve(method=deconvolve,
                                     source_components=source_components,
                                     **kwargs)
+                # traces can be excluded from the results and custom
+                # deconvolution functions can return new traces
+                if [id(tr) for tr in stream3c] != old:
+                    self.traces = ([tr for tr in self if id(tr) not in old] +
+                                   stream3c.traces)
         # Mirrow Q/R and T component at 0s for S-receiver method for a better
         # comparison with P-receiver method (converted Sp wave arrives before
         # S wave, but converted Ps wave arrives after P wave)
-- 
2.43.0


From ed9b0c48513576304bf9b249b5e935679ecc648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 19/35] fix: run_commands did not accept catalog objects

---
 rf/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 0da0169..9c2e2e8 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -269,8 +269,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From d78e60a29879b445d41f587c4d037ca5536a744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 20/35] fix: stack added processing information to the original
 traces

---
 rf/rfstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 6fa28f3..28fc12d 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import deepcopy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -434,7 +435,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 5f9ac16441caef634be0622bc809e6c3b78ce0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 21/35] fix: profile added processing information to the
 original traces

---
 rf/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..b4e5abf 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import deepcopy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 24a49f1979729249d7427e874dc35740155d15eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 22/35] fix: rfstats used the default distance range of S for
 phase PS

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 28fc12d..87c4c3c 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -709,7 +709,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From be331ba3fd1b11e808cd47b6bdc584e61e2f1329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 23/35] fix: rf accepted invalid methods '' and 'PS'

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 87c4c3c..e22bbcd 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -316,7 +316,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
-- 
2.43.0


From 6e4143223ef48ad95b1021475dcc82015c07ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 24/35] fix: profile boxes are perpendicular to the profile
 line and share edges

Boxes were oriented with the azimuth at the start of the profile and the
edges of wide boxes deviated from the perpendicular, such that traces were
assigned to boxes up to hundreds of km away (default width) or to no box.
---
 rf/profile.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index b4e5abf..2763771 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -12,22 +12,26 @@ from rf.util import _add_processing_info, direct_geodetic
 _LARGE_BOX_WIDTH = 2000
 
 
+def _get_edge(latlon0, azimuth, offset, width):
+    """Return lonlat points on the perpendicular to the profile at offset."""
+    from geographiclib.geodesic import Geodesic
+    # azimuth changes along the profile
+    pt = Geodesic.WGS84.Direct(latlon0[0], latlon0[1], azimuth, offset * 1000)
+    # use several points, because edges of the polygon are straight in lonlat
+    num = 2 * int(np.ceil(width / 100)) + 1
+    return [direct_geodetic((pt['lat2'], pt['lon2']), pt['azi2'] + 90, d)[::-1]
+            for d in np.linspace(-width/2, width/2, num)]
+
+
 def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     """Create a single box."""
     from shapely.geometry import Polygon
-    start = direct_geodetic(latlon0, azimuth, offset)
-    azis = ((azimuth - 90) % 360, azimuth,
-            (azimuth + 90) % 360, (azimuth + 180) % 360)
-    dists = (width/2, length, width, length)
-    latlon = start
-    corners = []
-    for a, d in zip(azis, dists):
-        latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
+    corners = (_get_edge(latlon0, azimuth, offset, width) +
+               _get_edge(latlon0, azimuth, offset + length, width)[::-1])
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-           'latlon': direct_geodetic(start, azimuth, length/2)}
+           'latlon': direct_geodetic(latlon0, azimuth, offset + length/2)}
     return box
 
 
-- 
2.43.0


From cca8e7776687dad34ff4c72bc9f6e8a3f5bd1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 25/35] fix: profile boxes crossing the date line

---
 rf/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rf/profile.py b/rf/profile.py
index 2763771..a2e58dc 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -28,6 +28,10 @@ def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     from shapely.geometry import Polygon
     corners = (_get_edge(latlon0, azimuth, offset, width) +
                _get_edge(latlon0, azimuth, offset + length, width)[::-1])
+    # avoid jumps at the date line
+    lon0 = latlon0[1]
+    corners = [(lon0 + (lon - lon0 + 180) % 360 - 180, lat)
+               for lon, lat in corners]
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-- 
2.43.0


From 80051dcb8302c354dff5d4abc24d193ced48c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 26/35] fix: harmonics mixed up events if components are
 missing for different events

---
 rf/harmonics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 03b79b6..a9cd8ff 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -70,6 +70,10 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
     rfR = np.array([tr.data for tr in stream.select(channel='*%s' % R).sort(['event_time'])])
     if T:
         rfT = np.array([tr.data for tr in stream.select(channel='*T').sort(['event_time'])])
+        evtR, evtT = [sorted(tr.stats.event_time for tr in stream.select(channel='*%s' % c))
+                      for c in components]
+        if evtR != evtT:
+            raise ValueError('Components %s not available for the same events' % components)
 
     # transform if working in frequency domain
     if method == 'freq':
-- 
2.43.0


From 67a0a378f518afb16355f48ed1ff2bffba5ee573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 27/35] fix: data which cannot be merged aborted
 iter_event_data

---
 rf/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 52525c4..ba4cd71 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -87,8 +87,14 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         if stream is None:  # get_waveforms function already handled the error
             continue
-        stream.trim(starttime, endtime)
-        stream.merge()
+        try:
+            stream.trim(starttime, endtime)
+            stream.merge()
+        except Exception as ex:  # e.g. different sampling rates
+            from warnings import warn
+            warn('Error "%s" while merging data for event %s, station %s.'
+                 % (ex, event.resource_id, seedid))
+            continue
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From 57bb2a021cf27ac760786f8f9282f8b8f36c67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 28/35] fix: moveout changed samples of the stream a slice was
 made from

---
 rf/simple_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index a895148..e8432d6 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -170,6 +170,7 @@ class SimpleModel(object):
             t0, t1 = self.stretch_delay_times(st.slowness, phase=phase,
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
+            tr.data = tr.data.copy()  # data might be shared, e.g. after slice
             if S_multiple:
                 time0 = st.starttime - st.onset + (index0 - 1) * st.delta
                 old_data = tr.data[:index0][::-1]
-- 
2.43.0


From 91b671c369cf931005b031bcb1645aef32fe5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 29/35] fix: histogram in profile plot was shifted by half a
 box

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 493394c..0e9a54d 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -362,7 +362,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 3d8f52ae4716c556a69171b5455296470ff9eb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 30/35] fix: depth ticks in plot of S receiver function profile

---
 rf/imaging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/imaging.py b/rf/imaging.py
index 0e9a54d..9a915c9 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -339,6 +339,8 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
         phase = profile[0].stats.moveout
         slowness = profile[0].stats.slowness
         pd = model.calculate_delay_times(phase=phase, slowness=slowness)
+        if phase[0].upper() == 'S':  # S receiver functions are mirrored
+            pd = -pd
         ylim = ax.get_ylim()
         ax2 = ax.twinx()
         ax.sharey(ax2)
-- 
2.43.0


From 756a4b7476c4570098571d2374d159c71ac708a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 31/35] fix: no zero sample before the onset after moveout of S
 multiples

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index e8432d6..6d7ae31 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -176,7 +176,7 @@ class SimpleModel(object):
                 old_data = tr.data[:index0][::-1]
                 t = time0 - np.arange(index0) * st.delta
                 new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
-                data = np.interp(-t, -new_t, old_data, left=0., right=0.)
+                data = np.interp(-t, -new_t, old_data, left=None, right=0.)
                 tr.data[:index0] = data[::-1]
             else:
                 if t0[-1] > t1[-1]:
-- 
2.43.0


From 6ad3f8db2ba675a14287fb5b0cd8030d08822f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 32/35] fix: downsample to float rates and of rates which are
 slightly off

---
 rf/rfstream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index e22bbcd..eb3ef2d 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -328,7 +328,9 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    # rate can be slightly off, e.g. if read from SAC file
+                    ratio = tr.stats.sampling_rate / downsample
+                    tr.decimate(int(round(ratio, 2)))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From 761afa02ac7ac873d7746ff41a1d3aacb5e104c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 33/35] fix: reproducible order of traces in stack

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index eb3ef2d..cae33f0 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -424,7 +424,7 @@ class RFStream(Stream):
         Each trace in the returned stream will correspond to one unique seed
         id.
         """
-        ids = set(tr.id for tr in self)
+        ids = list(dict.fromkeys(tr.id for tr in self))  # keep order
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-- 
2.43.0


From 1f66ca06dbd28bfa02f7fa1d3bc62f5c38e0b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:48 +0000
Subject: [PATCH 34/35] fix: profile() does not broadcast one sample traces
 onto longer ones

---
 rf/profile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/profile.py b/rf/profile.py
index a2e58dc..b39dd06 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -122,6 +122,8 @@ def profile(stream, boxes, crs=None):
                 tr2.stats.onset = tr2.stats.starttime + onset
         else:
             tr2 = stack[key]
+            if len(tr) != len(tr2):
+                raise ValueError('Traces of one box have different lengths.')
             tr2.data = tr2.data + tr.data
             tr2.stats.num += 1
     for tr2 in stack.values():
-- 
2.43.0


From bcc45b80ebb55254162a231790ee6efe99c45d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:11 +0000
Subject: [PATCH 35/35] fix: read Q files with a comment which is valid JSON,
 but no dictionary

A COMMENT field written by another program (e.g. 12345 or null) raised an
AttributeError in read_rf.
---
 rf/rfstream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index cae33f0..9dc8b60 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -569,9 +569,11 @@ class RFTrace(Trace):
                     pass
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
-                        st.update(json.loads(value))
+                        value = json.loads(value)
                     except json.JSONDecodeError:
-                        pass
+                        value = None
+                    if isinstance(value, dict):  # otherwise not written by rf
+                        st.update(value)
                     continue
                 else:
                     st[head] = value
-- 
2.43.0

