From ec4a338128ae727860470c61a3b67230e46df676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 001/127] fix: ListDict.pop removes the requested item, not the
 last one

---
 mt_metadata/common/list_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index 0ba55c1..d4aa581 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -297,7 +297,7 @@ class ListDict:
         """
 
         if key in self.keys():
-            return dict([self._home.popitem(key)])
+            return {key: self._home.pop(key)}
         else:
             raise KeyError(f"{key} is not in ListDict keys.")
 
-- 
2.43.0


From 5e5945d205ea1b73ea023cae41132530d04fce74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 002/127] fix: ListDict.append never overwrites an existing
 unnamed item

---
 mt_metadata/common/list_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/list_dict.py b/mt_metadata/common/list_dict.py
index d4aa581..f092f4d 100644
--- a/mt_metadata/common/list_dict.py
+++ b/mt_metadata/common/list_dict.py
@@ -207,7 +207,10 @@ class ListDict:
         try:
             key = self._get_key_from_object(obj)
         except TypeError:
-            key = str(len(self.keys()))
+            index = len(self._home)
+            while str(index) in self._home:
+                index += 1
+            key = str(index)
 
         self._home[key] = obj
 
-- 
2.43.0


From 812716d02893053a28211964d2fc42b411e5460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 003/127] fix: leap second table has no gap on 2012-06-30 and
 2016-12-31

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 552d8de..b37706e 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -57,9 +57,9 @@ leap_second_dict = {
     12: {"min": datetime.date(1997, 7, 1), "max": datetime.date(1999, 1, 1)},
     13: {"min": datetime.date(1999, 1, 1), "max": datetime.date(2006, 1, 1)},
     14: {"min": datetime.date(2006, 1, 1), "max": datetime.date(2009, 1, 1)},
-    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 6, 30)},
+    15: {"min": datetime.date(2009, 1, 1), "max": datetime.date(2012, 7, 1)},
     16: {"min": datetime.date(2012, 7, 1), "max": datetime.date(2015, 7, 1)},
-    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2016, 12, 31)},
+    17: {"min": datetime.date(2015, 7, 1), "max": datetime.date(2017, 1, 1)},
     18: {"min": datetime.date(2017, 1, 1), "max": datetime.date(2026, 7, 1)},
 }
 
-- 
2.43.0


From 9e6345098ff7e8dc8ae3109ecec326c7f2fd62f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 004/127] fix: MTime is not greater than an equal time

---
 mt_metadata/common/mttime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index b37706e..8c6e4fd 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -707,7 +707,10 @@ class MTime(BaseModel):
         bool
             True if other is greater than the current time stamp, otherwise False
         """
-        return not self.__lt__(other)
+        if not isinstance(other, MTime):
+            other = MTime(time_stamp=other)
+
+        return bool(self.time_stamp > other.time_stamp)
 
     def __ge__(
         self,
-- 
2.43.0


From e46aacd1435171ca9cc644de9d661fea70f828cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 005/127] fix: times given in another time zone are converted
 to UTC

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index 8c6e4fd..f658846 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -161,9 +161,9 @@ def _localize_utc(stamp: pd.Timestamp) -> pd.Timestamp:
 
     # check time zone and enforce UTC
     if stamp.tz is None:
-        stamp = stamp.tz_localize("UTC").tz_convert("UTC")
+        stamp = stamp.tz_localize("UTC")
 
-    return stamp
+    return stamp.tz_convert("UTC")
 
 
 # minimum and maximum time stamps for pandas
-- 
2.43.0


From 01ca5ae06630b54f03f1dff482c6a30c793c6d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 006/127] fix: parse null-like and 24:00:00 time strings that
 carry a time zone

---
 mt_metadata/common/mttime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index f658846..cab3c21 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -260,7 +260,7 @@ def _fix_out_of_bounds_time_stamp(dt):
         stamp = TMIN
         t_min_max = True
     else:
-        stamp = pd.Timestamp(dt, tz="UTC")
+        stamp = _localize_utc(pd.Timestamp(dt))
 
     return stamp, t_min_max
 
-- 
2.43.0


From 9fcfc7fe2bf269e01ebf7a6051ab6e230a56c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 007/127] fix: MTime.from_dict stores a time stamp, not the raw
 value

---
 mt_metadata/common/mttime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/common/mttime.py b/mt_metadata/common/mttime.py
index cab3c21..5bac917 100644
--- a/mt_metadata/common/mttime.py
+++ b/mt_metadata/common/mttime.py
@@ -836,7 +836,7 @@ class MTime(BaseModel):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
 
     @property
     def iso_str(self) -> str:
@@ -1268,4 +1268,4 @@ class MDate(MTime):
         value : str | int | float | np.datetime64 | pd.Timestamp
             time stamp value
         """
-        self.time_stamp = value
+        self.time_stamp = parse(value, gps_time=self.gps_time)
-- 
2.43.0


From 975ccb8dce35615d4c3b6dc11b0b6e3c08c4ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 008/127] fix: recorded channel lists of a run follow its
 channels when they are assigned

---
 mt_metadata/timeseries/run.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 77867e7..5dcc0dc 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -313,8 +313,22 @@ class Run(MetadataBase):
         for auxiliary in list(self.channels_recorded_auxiliary):
             if auxiliary not in self.channels.keys():
                 self.add_channel(Auxiliary(component=auxiliary))  # type: ignore
+        if len(self.channels) > 0:
+            self._update_channels_recorded()
         return self
 
+    def __setattr__(self, name, value) -> None:
+        if name == "channels":
+            # the recorded lists name the channels that are being replaced, if
+            # they are kept the validator would add those channels again.
+            try:
+                value = type(self).validate_channels(value, None)
+            except Exception:
+                pass  # an invalid value is reported by the assignment below
+            else:
+                self._empty_channels_recorded()
+        super().__setattr__(name, value)
+
     @field_validator("channels", mode="before")
     @classmethod
     def validate_channels(cls, value, info: ValidationInfo) -> ListDict:
@@ -413,9 +427,9 @@ class Run(MetadataBase):
             for ch in self.channels
             if isinstance(ch, Magnetic) and ch.component not in [None, "h_default"]
         ]
-        self.channels_recorded_auxiliary = sorted(aux_components)
-        self.channels_recorded_electric = sorted(elec_components)
-        self.channels_recorded_magnetic = sorted(mag_components)
+        self.channels_recorded_auxiliary.extend(sorted(aux_components))
+        self.channels_recorded_electric.extend(sorted(elec_components))
+        self.channels_recorded_magnetic.extend(sorted(mag_components))
 
     # def __len__(self):
     #     return len(self.channels)
-- 
2.43.0


From abef914540d720b8d85385be4ac19cc3e40835aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 009/127] fix: Run.merge(inplace=False) leaves the run
 unchanged

---
 mt_metadata/timeseries/run.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 5dcc0dc..1c0e386 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -483,12 +483,14 @@ class Run(MetadataBase):
 
         """
         if isinstance(other, Run):
+            if not inplace:
+                merged = self.copy()
+                merged.channels.extend(other.channels)
+                merged._update_channels_recorded()
+                return merged
             self.channels.extend(other.channels)
             self._update_channels_recorded()
-            if inplace:
-                self.update_time_period()
-            else:
-                return self.copy()
+            self.update_time_period()
         else:
             msg = f"Can only merge Run objects, not {type(other)}"
             logger.error(msg)
-- 
2.43.0


From 5855ad812f4b1d07fa0809d0223aa1b7647ddcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 010/127] fix: update_channel_keys also refreshes the recorded
 channel lists

---
 mt_metadata/timeseries/run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 1c0e386..0526ea8 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -898,7 +898,9 @@ class Run(MetadataBase):
         get_channel : Access channels by component
 
         """
-        return self.channels.update_keys()
+        key_mapping = self.channels.update_keys()
+        self._update_channels_recorded()
+        return key_mapping
 
     @property
     def n_channels(self) -> int:
-- 
2.43.0


From 85b838b4cd20c3d65741b47a49b1d0992d3bc005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 011/127] fix: the kind of a channel given as a dictionary
 without type follows its component

---
 mt_metadata/timeseries/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index 0526ea8..af47fd1 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -1085,14 +1085,14 @@ class Run(MetadataBase):
 
         elif isinstance(channel_obj, (dict, OrderedDict)):
             try:
-                ch_type = channel_obj["type"]
+                ch_type = channel_obj.get("type")
                 if ch_type is None:
                     ch_type = channel_obj["component"][0]
 
                 if ch_type.lower().startswith("e"):
                     return Electric(**channel_obj)
                 elif (
-                    ch_type.lower().startswith("b")
+                    ch_type.lower().startswith("h")
                     or ch_type.lower().startswith("b")
                     or ch_type.lower() in ["magnetic"]
                 ):
-- 
2.43.0


From eb22786035daa412fb29d6460ff1d0eb8c0c7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 012/127] fix: Station finds runs by its run container, not by
 a run_list that may be stale

---
 mt_metadata/timeseries/station.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index ff04a64..2156699 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -368,7 +368,7 @@ class Station(MetadataBase):
         :rtype: boolean
 
         """
-        if run_id in self.run_list:
+        if run_id in self.runs.keys():
             return True
         return False
 
@@ -384,7 +384,7 @@ class Station(MetadataBase):
         """
 
         if self.has_run(run_id):
-            return self.run_list.index(run_id)
+            return self.runs.keys().index(run_id)
         return None
 
     def _empty_channels_recorded(self):
-- 
2.43.0


From ef06966dcf420aa96e7560ce75add9940119a5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 013/127] fix: runs and channels removed from a station stay
 removed

---
 mt_metadata/timeseries/station.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 2156699..1ac93df 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -399,6 +399,33 @@ class Station(MetadataBase):
         """
         self.run_list.clear()
 
+    def _match_recorded_to_runs(self) -> None:
+        """
+        Make `run_list` and `channels_recorded` name only what the runs hold.
+
+        The validators read both lists as input and would otherwise create a
+        run or channel that has been removed again.
+        """
+        self.run_list[:] = list(self.runs.keys())
+        self.channels_recorded[:] = self._get_channels_recorded()
+
+    def __setattr__(self, name, value) -> None:
+        if name == "runs":
+            try:
+                value = type(self).validate_runs(value, None)
+            except Exception:
+                pass  # an invalid value is reported by the assignment below
+            else:
+                self._empty_run_list()
+                self._empty_channels_recorded()
+        elif (
+            name in type(self).model_fields
+            and name not in ["run_list", "channels_recorded"]
+            and len(self.runs) > 0
+        ):
+            self._match_recorded_to_runs()
+        super().__setattr__(name, value)
+
     def _get_channels_recorded(self) -> list[str]:
         """
         Get the channels recorded list.
@@ -511,6 +538,7 @@ class Station(MetadataBase):
 
         if self.has_run(run_id):
             self.runs.remove(run_id)
+            self._match_recorded_to_runs()
             if update:
                 self.update_all()
         else:
-- 
2.43.0


From d7c02bd79c357d14038599a7c25aecb806ca836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 014/127] fix: Station.update_all refreshes run_list and
 channels_recorded from the runs

---
 mt_metadata/timeseries/station.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index 1ac93df..d5a130b 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -484,8 +484,7 @@ class Station(MetadataBase):
 
         """
         self.update_time_period()
-        # self.update_channels_recorded()
-        self.update_run_list()
+        self._match_recorded_to_runs()
 
     def add_run(self, run_obj, update=True):
         """
-- 
2.43.0


From ac603162a89be72636fa5434fb43a288458ba9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 015/127] fix: updating a station adds the other station's runs
 instead of empty placeholders

---
 mt_metadata/timeseries/station.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index d5a130b..b15552a 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -347,6 +347,20 @@ class Station(MetadataBase):
             logger.error(msg)
             raise TypeError(msg)
 
+    def update(self, other, match=[]):
+        """
+        Update attribute values and runs from another station.
+
+        The runs have to be added before the lists that name them are updated,
+        otherwise empty runs and channels are created from those lists.
+        """
+        if isinstance(other, Station) and all(
+            self.get_attr_from_name(k) == other.get_attr_from_name(k) for k in match
+        ):
+            for run in other.runs:
+                self.add_run(run)
+        super().update(other, match)
+
     @property
     def n_runs(self) -> int:
         """
-- 
2.43.0


From 3f22c6242abe8ac05a13d453d0b68a8924f61ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 016/127] fix: sort_runs_by_time works with time objects and
 honours ascending

---
 mt_metadata/timeseries/station.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/station.py b/mt_metadata/timeseries/station.py
index b15552a..36e1c34 100644
--- a/mt_metadata/timeseries/station.py
+++ b/mt_metadata/timeseries/station.py
@@ -596,9 +596,11 @@ class Station(MetadataBase):
         run_starts = []
         for run_key, run_obj in self.runs.items():
             run_ids.append(run_key)
-            run_starts.append(run_obj.time_period.start.split("+")[0])
+            run_starts.append(run_obj.time_period.start.iso_no_tz)
 
-        index = np.argsort(np.array(run_starts, dtype=np.datetime64))
+        index = np.argsort(np.array(run_starts, dtype=np.datetime64), kind="stable")
+        if not ascending:
+            index = index[::-1]
 
         new_runs = ListDict()
         for ii in index:
-- 
2.43.0


From e4e1ebd892acd5e8cc001c43ed1cf04278e8658f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 017/127] fix: applied filters added as objects are sorted and
 names are matched as stored

---
 mt_metadata/timeseries/channel.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c72d19b..c769332 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -448,6 +448,7 @@ class ChannelBase(MetadataBase):
             if applied_filter.stage is None:
                 applied_filter.stage = len(self.filters) + 1
             self.filters.append(applied_filter)
+            self._sort_filters()
         else:
             if name is None:
                 raise ValueError("name must be provided if applied_filter is None")
@@ -455,7 +456,7 @@ class ChannelBase(MetadataBase):
                 raise TypeError("name must be a string")
 
             # Check if filter with this name already exists
-            if any(f.name == name for f in self.filters):
+            if any(f.name == self._stored_filter_name(name) for f in self.filters):
                 logger.debug(f"Filter '{name}' already exists, skipping duplicate")
                 return
 
@@ -498,6 +499,7 @@ class ChannelBase(MetadataBase):
             Whether to reset the stages of the remaining filters, by default True.
         """
 
+        name = self._stored_filter_name(name)
         new_list = []
         for f in self.filters:
             if f.name == name:
@@ -521,12 +523,31 @@ class ChannelBase(MetadataBase):
         AppliedFilter | None
             The filter with the given name, or None if not found.
         """
+        stored_name = self._stored_filter_name(name)
         for f in self.filters:
-            if f.name == name:
+            if f.name == stored_name:
                 return f
         logger.warning(f"Could not find filter {name} in channel filters")
         return None
 
+    def _stored_filter_name(self, name: str) -> str:
+        """
+        The form in which AppliedFilter keeps a filter name.
+
+        Parameters
+        ----------
+        name : str
+            Name of the filter as given by the user.
+
+        Returns
+        -------
+        str
+            Name as stored in `AppliedFilter.name`.
+        """
+        if not isinstance(name, str) or not name.strip():
+            return name
+        return AppliedFilter(name=name).name
+
     def _sort_filters(self) -> None:
         """
         Sort the list of filters applied to the channel by stage number.
-- 
2.43.0


From d89ed64705e9820cc833ede93077f14093b103d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 018/127] fix: a single applied filter read from XML is loaded

---
 mt_metadata/timeseries/channel.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index c769332..fbf3667 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -800,6 +800,14 @@ class ChannelBase(MetadataBase):
         # Handle new format filters separately to combine with old format
         new_format_filters = meta_dict.pop("filters", None)
 
+        # a single filter, for example read from XML, has been flattened
+        single_filter = {}
+        for key in list(meta_dict.keys()):
+            if key.startswith("filters."):
+                single_filter[key.split(".", 1)[1]] = meta_dict.pop(key)
+        if single_filter:
+            new_format_filters = [helpers.structure_dict(single_filter)]
+
         for name, value in meta_dict.items():
             if skip_none:
                 if value in NULL_VALUES:
-- 
2.43.0


From 33c1e90069811d5821fbba0ef8dce37983d0d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 019/127] fix: updating metadata never overwrites a date with
 the default date

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 1c88e17..fcf0fea 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -604,7 +604,7 @@ class MetadataBase(DotNotationBaseModel):
             else:
                 if (
                     v
-                    not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]
+                    not in [None, 0.0, [], "", "1980-01-01", "1980-01-01T00:00:00+00:00"]
                     + NULL_VALUES
                 ):
                     self.update_attribute(k, v)
-- 
2.43.0


From b8868a1098f79115527e9e58e824e3e73b9b1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 020/127] fix: adding a survey that is already present keeps
 the other's stations and filters

---
 mt_metadata/timeseries/experiment.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 976ec0a..3df9ed0 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -207,7 +207,12 @@ class Experiment(MetadataBase):
             )
 
         if self.has_survey(survey_obj.id):
-            self.surveys[survey_obj.id].update(survey_obj)
+            survey = self.surveys[survey_obj.id]
+            survey.update(survey_obj)
+            for station in survey_obj.stations:
+                survey.add_station(station, update=False)
+            survey.filters.update(survey_obj.filters)
+            survey.update_all()
             logger.debug(f"survey {survey_obj.id} already exists, updating metadata")
         else:
             self.surveys.append(survey_obj)
-- 
2.43.0


From 4487f2a3baf7e2d57bdee1d2737b20144dd3b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 021/127] fix: a single filter of a kind is read from
 experiment XML

---
 mt_metadata/timeseries/experiment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 3df9ed0..0a969d6 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -571,7 +571,7 @@ class Experiment(MetadataBase):
                         mt_filter = PoleZeroFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = PoleZeroFilter(value)
+                    mt_filter = PoleZeroFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["coefficient_filter"]:
@@ -580,7 +580,7 @@ class Experiment(MetadataBase):
                         mt_filter = CoefficientFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = CoefficientFilter(value)
+                    mt_filter = CoefficientFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["time_delay_filter"]:
@@ -589,7 +589,7 @@ class Experiment(MetadataBase):
                         mt_filter = TimeDelayFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = TimeDelayFilter(value)
+                    mt_filter = TimeDelayFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["frequency_response_table_filter"]:
@@ -598,7 +598,7 @@ class Experiment(MetadataBase):
                         mt_filter = FrequencyResponseTableFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FrequencyResponseTableFilter(value)
+                    mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
             elif key in ["fir_filter"]:
@@ -607,7 +607,7 @@ class Experiment(MetadataBase):
                         mt_filter = FIRFilter(**v)
                         return_dict[mt_filter.name.lower()] = mt_filter
                 else:
-                    mt_filter = FIRFilter(value)
+                    mt_filter = FIRFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
         return return_dict
-- 
2.43.0


From 3689a5a3cf67e3bde920699a9ae7d57eef2beddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 022/127] fix: reading experiment XML creates no ghost channels
 and accepts empty levels

---
 mt_metadata/timeseries/experiment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 0a969d6..2b71033 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -465,16 +465,15 @@ class Experiment(MetadataBase):
         for survey_element in list(experiment_element):
             survey_dict = helpers.element_to_dict(survey_element)
             stations = self._pop_dictionary(survey_dict["survey"], "station")
+            fd = survey_dict["survey"].pop("filters", None)
             survey_obj = Survey()
             survey_obj.from_dict(survey_dict, skip_none=skip_none)
-            fd = survey_dict["survey"].pop("filters")
             filter_dict = self._read_filter_dict(fd)
             survey_obj.filters.update(filter_dict)
 
             for station_dict in stations:
                 station_obj = Station()
                 runs = self._pop_dictionary(station_dict, "run")
-                station_obj.from_dict(station_dict, skip_none=skip_none)
                 for run_dict in runs:
                     run_obj = Run()
 
@@ -493,6 +492,9 @@ class Experiment(MetadataBase):
                             logger.debug(f"Could not find channel {ch}")
                     run_obj.from_dict(run_dict, skip_none=skip_none)
                     station_obj.add_run(run_obj)
+                # the runs have to be there before run_list and channels_recorded
+                # are set, otherwise empty runs and channels are created for them
+                station_obj.from_dict(station_dict, skip_none=skip_none)
                 survey_obj.add_station(station_obj)
             self.add_survey(survey_obj)
 
@@ -512,7 +514,7 @@ class Experiment(MetadataBase):
 
         """
 
-        elements = in_dict.pop(element)
+        elements = in_dict.pop(element, [])
         if not isinstance(elements, list):
             elements = [elements]
 
-- 
2.43.0


From 435c6b35944dc33da57a90a3b50ebab48d78c879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 023/127] fix: to_dict keeps arrays that contain a zero

---
 mt_metadata/base/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index fcf0fea..6b0b5dc 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1124,7 +1124,7 @@ class MetadataBase(DotNotationBaseModel):
                 if isinstance(value, (np.ndarray)):
                     if name == "zeros" or name == "poles":
                         meta_dict[name] = value
-                    elif value.all() != 0:
+                    elif value.size > 0:
                         meta_dict[name] = value
                 elif hasattr(value, "size"):
                     if value.size > 0:
-- 
2.43.0


From 0b1d86571eb502f9eeccec3782ecef4da45f2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 024/127] fix: fap tables and fir filters are recognised when
 an experiment is read

---
 mt_metadata/timeseries/experiment.py | 2 +-
 mt_metadata/timeseries/survey.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index 2b71033..d07ba92 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -603,7 +603,7 @@ class Experiment(MetadataBase):
                     mt_filter = FrequencyResponseTableFilter(**value)
                     return_dict[mt_filter.name.lower()] = mt_filter
 
-            elif key in ["fir_filter"]:
+            elif key in ["fir_filter", "f_i_r_filter"]:
                 if isinstance(value, list):
                     for v in value:
                         mt_filter = FIRFilter(**v)
diff --git a/mt_metadata/timeseries/survey.py b/mt_metadata/timeseries/survey.py
index 2c4c381..764deab 100644
--- a/mt_metadata/timeseries/survey.py
+++ b/mt_metadata/timeseries/survey.py
@@ -459,7 +459,7 @@ class Survey(MetadataBase):
                             f = TimeDelayFilter()
                         elif f_type.lower() in ["fir"]:
                             f = FIRFilter()
-                        elif f_type.lower() in ["frequency response table"]:
+                        elif f_type.lower() in ["fap", "frequency response table"]:
                             f = FrequencyResponseTableFilter()
                         else:
                             msg = f"filter type {f_type} not supported."
-- 
2.43.0


From 6874e5325c19654eee475af2de5aac5653d87886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:39 +0000
Subject: [PATCH 025/127] fix: arrays survive XML and complex arrays survive
 JSON

---
 mt_metadata/base/helpers.py                  | 20 ++++++++++++++++++--
 mt_metadata/timeseries/filters/fir_filter.py | 11 +++--------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index cab2b67..4242477 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -561,7 +561,8 @@ def flatten_dict(meta_dict, parent_key=None, sep="."):
             new_key = f"{parent_key}{sep}{key}"
         else:
             new_key = key
-        if isinstance(value, MutableMapping):
+        # complex arrays are encoded as {"real": [], "imag": []} in json
+        if isinstance(value, MutableMapping) and set(value) != {"real", "imag"}:
             items.extend(flatten_dict(value, new_key, sep=sep).items())
         else:
             items.append((new_key, value))
@@ -755,6 +756,8 @@ def get_type(name, attr_dict):
 def recursive_split_xml(element, item, base, name, attr_dict=None):
     """ """
     key = None
+    if isinstance(item, (np.ndarray, np.generic)):
+        item = item.tolist()
     if isinstance(item, dict):
         for key, value in item.items():
             attr_name = ".".join([base, key])
@@ -770,7 +773,7 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
     elif item is None:
         # Leave element.text as None so XML has empty element (no text)
         pass
-    elif isinstance(item, (float, int)):
+    elif isinstance(item, (float, int, complex)):
         element.text = str(item)
     else:
         # if the value is an hdf5 reference make it a string
@@ -1133,6 +1136,9 @@ def object_to_array(value, dtype=float):
     """
     if value is None:
         return np.empty(0)
+    elif isinstance(value, dict) and set(value) == {"real", "imag"}:
+        real = np.array(value["real"], dtype=float)
+        return (real + 1j * np.array(value["imag"], dtype=float)).astype(dtype)
     elif isinstance(value, (list, tuple)):
         return np.array(value, dtype=dtype)
     elif isinstance(value, np.ndarray):
@@ -1145,6 +1151,16 @@ def object_to_array(value, dtype=float):
             msg = f"String input must be a single number or a list of numbers, not '{value}'"
             raise TypeError(msg)
 
+        elif "j" in value and dtype is complex:
+            try:
+                return np.array([complex(value.replace(" ", ""))])
+            except ValueError:
+                items = value.strip("[] ").replace(",", " ").split()
+                try:
+                    return np.array([complex(item) for item in items])
+                except ValueError:
+                    return np.array(extract_numbers(value), dtype=dtype)
+
         elif has_numbers(value) and not is_numeric_string(value):
             value = extract_numbers(value)
             return np.array(value, dtype=dtype)
diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index 1684167..a5ae7ee 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -7,7 +7,7 @@ import matplotlib.pyplot as plt
 import numpy as np
 from pydantic import computed_field, Field, field_validator, PrivateAttr, ValidationInfo
 
-from mt_metadata.base.helpers import requires
+from mt_metadata.base.helpers import object_to_array, requires
 from mt_metadata.timeseries.filters import FilterBase, get_base_obspy_mapping
 
 try:
@@ -112,7 +112,7 @@ class FIRFilter(FilterBase):
         ),
     ]
 
-    @field_validator("coefficients")
+    @field_validator("coefficients", mode="before")
     @classmethod
     def validate_coefficients(
         cls, value: list[float], info: ValidationInfo
@@ -123,12 +123,7 @@ class FIRFilter(FilterBase):
         :param info: Validation information.
         :return: The validated value.
         """
-        if isinstance(value, (list, tuple, np.ndarray)):
-            return np.array(value, dtype=float)
-        elif isinstance(value, str):
-            return np.array(value.split(","), dtype=float)
-        else:
-            raise ValueError("Coefficients must be a list, tuple, or string.")
+        return object_to_array(value)
 
     def make_obspy_mapping(self):
         mapping = get_base_obspy_mapping()
-- 
2.43.0


From 4248c43614ff38003bbd3ce02d101ece3ec015d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 026/127] fix: JSON files given as a string path are read,
 reading XML leaves the element unchanged

---
 mt_metadata/base/helpers.py          | 21 +++++++++++----------
 mt_metadata/base/metadata.py         |  3 +--
 mt_metadata/timeseries/experiment.py |  3 +--
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 4242477..2866a57 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -821,7 +821,8 @@ def element_to_dict(element):
     :rtype: TYPE
 
     """
-    meta_dict = {element.tag: {} if element.attrib else None}
+    attrib = dict(element.attrib)  # the element itself is left as it is
+    meta_dict = {element.tag: {} if attrib else None}
     children = list(element)
     if children:
         child_dict = defaultdict(list)
@@ -835,18 +836,18 @@ def element_to_dict(element):
             meta_dict[element.tag] = meta_dict[element.tag]["item"]
     # going to skip attributes for now, later can check them against
     # standards, neet to skip units and type
-    if element.attrib:
+    if attrib:
         pop_units = False
         pop_type = False
-        for k, v in element.attrib.items():
+        for k, v in attrib.items():
             if k in ["units"]:
-                if "type" in element.attrib.keys():
+                if "type" in attrib.keys():
                     pop_type = True
-                if len(element.attrib.keys()) <= 2:
+                if len(attrib.keys()) <= 2:
                     pop_units = True
                     continue
             if k in ["type"]:
-                if len(element.attrib.keys()) <= 1:
+                if len(attrib.keys()) <= 1:
                     if v in [
                         "float",
                         "string",
@@ -860,14 +861,14 @@ def element_to_dict(element):
 
             meta_dict[element.tag][k] = v
         if pop_units:
-            element.attrib.pop("units")
+            attrib.pop("units")
         if pop_type:
-            element.attrib.pop("type")
+            attrib.pop("type")
     if element.text:
         text = element.text.strip()
-        if children or element.attrib:
+        if children or attrib:
             if text:
-                if len(element.attrib.keys()) > 0:
+                if len(attrib.keys()) > 0:
                     meta_dict[element.tag]["value"] = text
                 else:
                     meta_dict[element.tag] = text
diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 6b0b5dc..6555804 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1259,8 +1259,7 @@ class MetadataBase(DotNotationBaseModel):
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
+                    json_str = json_path.read_text()
             except OSError:
                 pass
             json_dict = json.loads(json_str)
diff --git a/mt_metadata/timeseries/experiment.py b/mt_metadata/timeseries/experiment.py
index d07ba92..25d1035 100644
--- a/mt_metadata/timeseries/experiment.py
+++ b/mt_metadata/timeseries/experiment.py
@@ -357,8 +357,7 @@ class Experiment(MetadataBase):
             try:
                 json_path = Path(json_str)
                 if json_path.exists():
-                    with open(json_path, "r") as fid:
-                        json_dict = json.load(fid)
+                    json_str = json_path.read_text()
             except OSError:
                 pass
             json_dict = json.loads(json_str)
-- 
2.43.0


From ada1c574e2cc0df014029a93df064e8a49800b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:36 +0000
Subject: [PATCH 027/127] fix: to_dict leaves dictionary attributes unchanged

---
 mt_metadata/base/metadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 6555804..62a8b05 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -1094,6 +1094,7 @@ class MetadataBase(DotNotationBaseModel):
                 elif hasattr(value, "to_dict"):
                     value = value.to_dict(nested=nested, required=required)
                 elif isinstance(value, dict):
+                    value = dict(value)  # leave the attribute itself unchanged
                     for key, obj in value.items():
                         if hasattr(obj, "to_dict"):
                             value[key] = obj.to_dict(nested=nested, required=required)
-- 
2.43.0


From a1837248d9a98728e777f4f7d8787525764cd916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 028/127] fix: a comment keeps its text when its author and
 time are given next to it

---
 mt_metadata/base/metadata.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 62a8b05..00e90e9 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -102,7 +102,16 @@ class DotNotationBaseModel(BaseModel):
                     flat_data[key] = value
 
         # Merge the nested dict into flat dict (nested takes precedence)
-        flat_data.update(nested_data)
+        for key, nested_value in nested_data.items():
+            flat_value = flat_data.get(key)
+            if isinstance(nested_value, dict) and isinstance(flat_value, str):
+                # the text of a comment is given next to its author and time
+                field = type(self).model_fields.get(key)
+                if "value" in getattr(
+                    getattr(field, "annotation", None), "model_fields", {}
+                ):
+                    nested_value.setdefault("value", flat_value)
+            flat_data[key] = nested_value
 
         # Call parent constructor with processed data
         super().__init__(**flat_data)
-- 
2.43.0


From d59860072533f0ca5dac9ad8c45f6d713f515b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 029/127] fix: the description of a filter is the text of its
 comment

---
 mt_metadata/timeseries/filters/filter_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/filter_base.py b/mt_metadata/timeseries/filters/filter_base.py
index 143f20f..7091b86 100644
--- a/mt_metadata/timeseries/filters/filter_base.py
+++ b/mt_metadata/timeseries/filters/filter_base.py
@@ -282,7 +282,7 @@ class FilterBase(MetadataBase):
         if self.comments.value is None:
             return filter_descriptions[self.type]
 
-        return self.comments
+        return self.comments.value
 
     @requires(obspy=obspy_import)
     @classmethod
-- 
2.43.0


From 3f6becf7eeaa2e1f23fea0f1d94d885f4e4fcd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 030/127] fix: a FIR stage states the frequency of its own gain

---
 mt_metadata/timeseries/filters/channel_response.py | 5 ++++-
 mt_metadata/timeseries/filters/fir_filter.py       | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/channel_response.py b/mt_metadata/timeseries/filters/channel_response.py
index 29b580b..ecb24c1 100644
--- a/mt_metadata/timeseries/filters/channel_response.py
+++ b/mt_metadata/timeseries/filters/channel_response.py
@@ -503,10 +503,13 @@ class ChannelResponse(FilterBase):
                     )
                 )
             else:
+                # the gain of a FIR stage is defined at its own frequency
                 total_response.response_stages.append(
                     f.to_obspy(
                         stage_number=ii,
-                        normalization_frequency=self.normalization_frequency,
+                        normalization_frequency=getattr(
+                            f, "gain_frequency", self.normalization_frequency
+                        ),
                         sample_rate=sample_rate,
                     )
                 )
diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index a5ae7ee..e841252 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -197,7 +197,7 @@ class FIRFilter(FilterBase):
     def to_obspy(
         self,
         stage_number=1,
-        normalization_frequency=1,
+        normalization_frequency=None,
         sample_rate=1,
     ):
         """
@@ -216,6 +216,8 @@ class FIRFilter(FilterBase):
         # decimation_input_sample_rate=None, decimation_factor=None,
         # decimation_offset=None, decimation_delay=None,
         # decimation_correction=None
+        if normalization_frequency is None:
+            normalization_frequency = self.gain_frequency
         rs = FIRResponseStage(
             stage_number,
             self.gain,
-- 
2.43.0


From 2bacaf8b7369f90ef7e33b7371c79671c5958143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 031/127] fix: a pole zero stage without poles keeps its
 normalization factor

---
 mt_metadata/timeseries/filters/obspy_stages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/obspy_stages.py b/mt_metadata/timeseries/filters/obspy_stages.py
index f383ad3..221ecd6 100644
--- a/mt_metadata/timeseries/filters/obspy_stages.py
+++ b/mt_metadata/timeseries/filters/obspy_stages.py
@@ -130,7 +130,11 @@ def create_filter_from_stage(stage):
     """
 
     if isinstance(stage, obspy.core.inventory.response.PolesZerosResponseStage):
-        if stage.poles == [] and stage.zeros == []:
+        if (
+            stage.poles == []
+            and stage.zeros == []
+            and stage.normalization_factor in [None, 1.0]
+        ):
             if (
                 "counts" not in stage.input_units.lower()
                 and "counts" not in stage.output_units.lower()
-- 
2.43.0


From 76f522bee3f46c94f19975d6d04010daa5e1fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 032/127] fix: the response of a time delay filter includes its
 gain

---
 mt_metadata/timeseries/filters/time_delay_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/filters/time_delay_filter.py b/mt_metadata/timeseries/filters/time_delay_filter.py
index 68b9638..8a67536 100644
--- a/mt_metadata/timeseries/filters/time_delay_filter.py
+++ b/mt_metadata/timeseries/filters/time_delay_filter.py
@@ -120,4 +120,4 @@ class TimeDelayFilter(FilterBase):
         w = 2 * np.pi * frequencies
         exponent = -1.0j * w * self.delay
         spectral_shift_multiplier = np.exp(exponent)
-        return spectral_shift_multiplier
+        return self.gain * spectral_shift_multiplier
-- 
2.43.0


From 892446507ecca40e650d71679267fe9797bb97f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 033/127] fix: a FIR stage is written as valid StationXML

---
 mt_metadata/timeseries/filters/fir_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/fir_filter.py b/mt_metadata/timeseries/filters/fir_filter.py
index e841252..71b079b 100644
--- a/mt_metadata/timeseries/filters/fir_filter.py
+++ b/mt_metadata/timeseries/filters/fir_filter.py
@@ -218,6 +218,10 @@ class FIRFilter(FilterBase):
         # decimation_correction=None
         if normalization_frequency is None:
             normalization_frequency = self.gain_frequency
+        decimation_factor = self.decimation_factor
+        if float(decimation_factor).is_integer():
+            # StationXML only knows integer factors
+            decimation_factor = int(decimation_factor)
         rs = FIRResponseStage(
             stage_number,
             self.gain,
@@ -225,13 +229,13 @@ class FIRFilter(FilterBase):
             self.units_in_object.symbol,
             self.units_out_object.symbol,
             coefficients=self.coefficients.tolist(),
-            symmetry=self.symmetry,
+            symmetry=getattr(self.symmetry, "value", self.symmetry),
             name=self.name,
             description=self.get_filter_description(),
             input_units_description=self.units_in_object.name,
             output_units_description=self.units_out_object.name,
             decimation_input_sample_rate=self.decimation_input_sample_rate,
-            decimation_factor=self.decimation_factor,
+            decimation_factor=decimation_factor,
         )
 
         return rs
-- 
2.43.0


From 07b7416c167c86caebc884078cb53d93976fdab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 034/127] fix: units that contain digital counts or a spaced
 slash keep their meaning

---
 mt_metadata/common/units.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mt_metadata/common/units.py b/mt_metadata/common/units.py
index fd43835..fdb3802 100644
--- a/mt_metadata/common/units.py
+++ b/mt_metadata/common/units.py
@@ -9,6 +9,7 @@ case strings.
 
 """
 
+import re
 from collections import OrderedDict
 from typing import Annotated
 
@@ -309,6 +310,12 @@ def parse_unit_string(unit_string: str) -> list[dict] | None:
     if not isinstance(unit_string, str):
         raise TypeError("The unit_string must be a string.")
     unit_string = unit_string.replace("[", "").replace("]", "")
+    # spaces around a slash do not change what it means
+    unit_string = re.sub(r"\s*/\s*", "/", unit_string)
+    # the one unit whose name has a space in it
+    unit_string = re.sub(
+        r"\bdigital counts?\b", "count", unit_string, flags=re.IGNORECASE
+    )
     result = []
     separator = ""
     while separator != None:
-- 
2.43.0


From c08c6ad16bc48d50aa1a3d05b4f4f4f38e87cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 035/127] fix: runs read from StationXML have the sample rate
 of their channels

---
 .../timeseries/stationxml/xml_inventory_mt_experiment.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 5145616..156db21 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -90,6 +90,8 @@ class XMLInventoryMTExperiment:
                             run_channel.time_period.start = mt_run.time_period.start
                             run_channel.time_period.end = mt_run.time_period.end
                             mt_run.add_channel(run_channel)
+                            if not mt_run.sample_rate:
+                                mt_run.sample_rate = run_channel.sample_rate
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
-- 
2.43.0


From 2ff3f47ecb53a0111d9ffece95a93bbc8bc0c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 036/127] fix: channels that differ in elevation or response
 are not merged in StationXML

---
 .../stationxml/xml_inventory_mt_experiment.py          | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 156db21..947dd36 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -295,4 +295,14 @@ class XMLInventoryMTExperiment:
                 f"{round(xml_channel_01.dip, 2)} != {round(xml_channel_02.dip, 2)}"
             )
             return False
+        if round(xml_channel_01.elevation, 3) != round(xml_channel_02.elevation, 3):
+            self.logger.debug(
+                f"{round(xml_channel_01.elevation, 3)} != {round(xml_channel_02.elevation, 3)}"
+            )
+            return False
+        if xml_channel_01.response != xml_channel_02.response:
+            self.logger.debug(
+                f"{xml_channel_01.response} != {xml_channel_02.response}"
+            )
+            return False
         return True
-- 
2.43.0


From e71a44f0aaf42191b6f1778960fb62263df2b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 037/127] fix: the model of a sensor without a name survives
 StationXML

---
 .../stationxml/xml_channel_mt_channel.py      | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 51d88f0..7df65f8 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -264,7 +264,7 @@ class XMLChannelMTChannel(BaseTranslator):
                 raise ValueError(msg)
             mt_channel.sensor.id = sensor.serial_number
             mt_channel.sensor.manufacturer = sensor.manufacturer
-            mt_channel.sensor.model = f"{sensor.model} {sensor.description}"
+            mt_channel.sensor.model = self._parse_sensor_model(sensor)
             mt_channel.sensor.type = sensor.type
             mt_channel.sensor.name = sensor.description
 
@@ -306,11 +306,18 @@ class XMLChannelMTChannel(BaseTranslator):
 
             mt_channel.sensor.type = sensor.type
             mt_channel.sensor.manufacturer = sensor.manufacturer
-            mt_channel.sensor.model = f"{sensor.model} {sensor.description}"
+            mt_channel.sensor.model = self._parse_sensor_model(sensor)
             mt_channel.sensor.id = sensor.serial_number
 
             return mt_channel
 
+    def _parse_sensor_model(self, sensor):
+        """
+        The model of a sensor is its model and description, if there are any
+        """
+        parts = [str(part) for part in (sensor.model, sensor.description) if part]
+        return " ".join(parts) if parts else None
+
     def _mt_to_sensor(self, mt_channel):
         """
         Create an xml sensor from an MT channel
@@ -337,11 +344,10 @@ class XMLChannelMTChannel(BaseTranslator):
         elif mt_channel.type in ["magnetic"]:
             s.type = mt_channel.sensor.type
             if mt_channel.sensor.model:
-                s.model = mt_channel.sensor.model.split()[0]
-                try:
-                    s.description = mt_channel.sensor.model.split()[1]
-                except IndexError:
-                    pass
+                s.model = mt_channel.sensor.model
+                if mt_channel.sensor.name:
+                    # the name is written as the description
+                    s.model = s.model.removesuffix(f" {mt_channel.sensor.name}")
             s.serial_number = mt_channel.sensor.id
             s.manufacturer = mt_channel.sensor.manufacturer
             s.description = mt_channel.sensor.name
-- 
2.43.0


From 6a7d3e30eb6e74954d079c6cc878896ccbd7c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 038/127] fix: a comment with text is not equal to None

---
 mt_metadata/common/comment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index 4be889a..b0fdb1e 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -125,7 +125,7 @@ class Comment(MetadataBase):
             True if the objects are equal, False otherwise.
         """
         if other is None:
-            return Comment(value=None)  # type: ignore
+            other = Comment(value=None)  # type: ignore
         if isinstance(other, str):
             other = Comment(value=other)  # type: ignore
         elif isinstance(other, dict):
-- 
2.43.0


From 2bc8b4a0fb67424aaaa1e54ffb6acd9c5028e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 039/127] fix: metadata is compared with dictionaries and
 comments by their parts

---
 mt_metadata/base/metadata.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 00e90e9..7b8b86d 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -421,7 +421,8 @@ class MetadataBase(DotNotationBaseModel):
             try:
                 # Attempt to load the other object into a new instance of MetadataBase
                 # This will ensure that the other object has the same attributes as self
-                other_obj = __class__().load(other)
+                other_obj = type(self)()
+                other_obj.load(other)
             except Exception as e:
                 logger.error(
                     f"Failed to load other object of type {type(other)}: {other}. Error is: {e} "
@@ -449,6 +450,17 @@ class MetadataBase(DotNotationBaseModel):
             # Handle numpy arrays in dictionaries which cannot be directly compared
             pass
 
+        # a comment that is a plain text on one side may have an author and time
+        # on the other, compare its parts.
+        for plain_dict, full_dict in [
+            (home_dict, other_dict),
+            (other_dict, home_dict),
+        ]:
+            for key in [k for k in plain_dict if f"{k}.value" in full_dict]:
+                plain_dict[f"{key}.value"] = plain_dict.pop(key)
+                plain_dict[f"{key}.author"] = None
+                plain_dict[f"{key}.time_stamp"] = "1980-01-01T00:00:00+00:00"
+
         equals = True
         for key, value in home_dict.items():
             skip_key_bool = False
-- 
2.43.0


From 1341f8f11a4597a7bc6fecd75486fe030a3ffa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:45 +0000
Subject: [PATCH 040/127] fix: updating a comment's text keeps its author and
 time, objects of another kind are not taken over

---
 mt_metadata/base/metadata.py                  |  6 +++++
 .../fourier_coefficients/decimation.py        | 24 ++-----------------
 mt_metadata/timeseries/run.py                 | 17 ++-----------
 3 files changed, 10 insertions(+), 37 deletions(-)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 7b8b86d..2783880 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -628,6 +628,12 @@ class MetadataBase(DotNotationBaseModel):
                     not in [None, 0.0, [], "", "1980-01-01", "1980-01-01T00:00:00+00:00"]
                     + NULL_VALUES
                 ):
+                    if (
+                        isinstance(v, str)
+                        and type(self.get_attr_from_name(k)).__name__ == "Comment"
+                    ):
+                        # only the text is given, keep the author and time
+                        k = f"{k}.value"
                     self.update_attribute(k, v)
 
     ## cannot override the __deepcopy__ method in pydantic.BaseModel otherwise bad
diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 829c6ab..5560a93 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -259,28 +259,8 @@ class Decimation(MetadataBase):
         """
         if not isinstance(other, type(self)):
             logger.warning("Cannot update %s with %s", type(self), type(other))
-        for k in match:
-            if self.get_attr_from_name(k) != other.get_attr_from_name(k):
-                msg = "%s is not equal %s != %s"
-                logger.error(
-                    msg,
-                    k,
-                    self.get_attr_from_name(k),
-                    other.get_attr_from_name(k),
-                )
-                raise ValueError(
-                    msg,
-                    k,
-                    self.get_attr_from_name(k),
-                    other.get_attr_from_name(k),
-                )
-        for k, v in other.to_dict(single=True).items():
-            if hasattr(v, "size"):
-                if v.size > 0:
-                    self.update_attribute(k, v)
-            else:
-                if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
-                    self.update_attribute(k, v)
+            return
+        super().update(other, match)
 
         ## Need this because channels are set when setting channels_recorded
         ## and it initiates an empty channel, but we need to fill it with
diff --git a/mt_metadata/timeseries/run.py b/mt_metadata/timeseries/run.py
index af47fd1..a851ce9 100644
--- a/mt_metadata/timeseries/run.py
+++ b/mt_metadata/timeseries/run.py
@@ -567,21 +567,8 @@ class Run(MetadataBase):
             or (hasattr(other, "__class__") and other.__class__.__name__ == "Run")
         ):
             logger.warning(f"Cannot update {type(self)} with {type(other)}")
-        for k in match:
-            if self.get_attr_from_name(k) != other.get_attr_from_name(k):
-                msg = (
-                    f"{k} is not equal {self.get_attr_from_name(k)} != "
-                    "{other.get_attr_from_name(k)}"
-                )
-                logger.error(msg)
-                raise ValueError(msg)
-        for k, v in other.to_dict(single=True).items():
-            if hasattr(v, "size"):
-                if v.size > 0:
-                    self.update_attribute(k, v)
-            else:
-                if v not in [None, 0.0, [], "", "1980-01-01T00:00:00+00:00"]:
-                    self.update_attribute(k, v)
+            return
+        super().update(other, match)
 
         ## Need this because channels are set when setting channels_recorded
         ## and it initiates an empty channel, but we need to fill it with
-- 
2.43.0


From ea22fcec6010d3967d9dcd3ef6b2ef453994931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 041/127] fix: links and paths are written to XML

---
 mt_metadata/base/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 2866a57..4068691 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -779,6 +779,10 @@ def recursive_split_xml(element, item, base, name, attr_dict=None):
         # if the value is an hdf5 reference make it a string
         if "reference" in str(type(item)).lower():
             element.text = str(item)
+        elif hasattr(item, "unicode_string"):
+            element.text = item.unicode_string()
+        elif isinstance(item, Path):
+            element.text = str(item)
         else:
             raise ValueError("Value cannot be {0}".format(type(item)))
     if attr_dict:
-- 
2.43.0


From 4c61f122de04f75761ae3e4eca2f64375dc1f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 042/127] fix: empty lists, dictionaries and options are read
 back, entries of dictionary attributes are set, missing values of a series
 are None

---
 mt_metadata/base/metadata.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mt_metadata/base/metadata.py b/mt_metadata/base/metadata.py
index 2783880..99b6bfe 100644
--- a/mt_metadata/base/metadata.py
+++ b/mt_metadata/base/metadata.py
@@ -191,6 +191,11 @@ class DotNotationBaseModel(BaseModel):
                 )
             current = getattr(current, part)
 
+        if isinstance(current, dict):
+            # an entry of a dictionary attribute
+            current[parts[-1]] = attr_value
+            return
+
         # Set the final attribute
         setattr(current, parts[-1], attr_value)
         setattr(current, parts[-1], attr_value)
@@ -309,6 +314,11 @@ class MetadataBase(DotNotationBaseModel):
                     # Convert None to 0.0 for float/int fields
                     elif annotation in (float, int):
                         return 0.0
+                    # Convert None to the empty option of an enumeration
+                    elif issubclass(annotation, Enum) and "" in [
+                        option.value for option in annotation
+                    ]:
+                        return ""
                 except (AttributeError, TypeError):
                     # If there's any issue checking the annotation, let Pydantic handle it normally
                     pass
@@ -1241,6 +1251,18 @@ class MetadataBase(DotNotationBaseModel):
             if skip_none:
                 if value in NULL_VALUES:
                     continue
+            if value is None:
+                # nothing is given, as for an empty XML element
+                try:
+                    current = self.get_attr_from_name(name)
+                except AttributeError:
+                    current = None
+                if isinstance(current, (list, dict)):
+                    value = type(current)()
+                elif hasattr(current, "keys") or (
+                    isinstance(current, str) and current == ""
+                ):
+                    continue
             self.update_attribute(name, value)
 
     def to_json(
@@ -1333,6 +1355,8 @@ class MetadataBase(DotNotationBaseModel):
             raise MTSchemaError(msg)
         for key, value in pd_series.items():
             key = str(key)
+            if isinstance(value, float) and np.isnan(value):
+                value = None  # pandas has no None in columns of numbers or text
             self.update_attribute(key, value)
 
     def to_series(self, required: bool = True) -> pd.Series:
-- 
2.43.0


From 6cd83335a0d59e4fa8a0ca0467cd39bb58605b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 043/127] fix: a comment that has only an author or a time is
 read back, writing XML leaves the comment unchanged

---
 mt_metadata/common/comment.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/common/comment.py b/mt_metadata/common/comment.py
index b0fdb1e..85b41af 100644
--- a/mt_metadata/common/comment.py
+++ b/mt_metadata/common/comment.py
@@ -186,6 +186,8 @@ class Comment(MetadataBase):
                     self.time_stamp = value.get("time_stamp", None)
                     self.author = value.get("author", None)
                     self.value = value.get("value", None)
+                elif key in ["author", "time_stamp"]:
+                    setattr(self, key, value)
                 elif isinstance(value, str):
                     self.value = value
 
@@ -240,12 +242,8 @@ class Comment(MetadataBase):
         :rtype: str | et.Element
         """
 
-        if self.author is None:
-            self.author = ""
-        root = et.Element(self.__class__.__name__ + "s", {"author": self.author})
-        if self.value is None:
-            self.value = ""
-        root.text = self.value
+        root = et.Element(self.__class__.__name__ + "s", {"author": self.author or ""})
+        root.text = self.value or ""
 
         if string:
             return element_to_string(root)
-- 
2.43.0


From a3c6d09354b88929e337c65c9387e82a5939979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 044/127] fix: an empty link of a funding source is no link

---
 mt_metadata/common/funding_source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/common/funding_source.py b/mt_metadata/common/funding_source.py
index ee48ccc..8ea0731 100644
--- a/mt_metadata/common/funding_source.py
+++ b/mt_metadata/common/funding_source.py
@@ -131,6 +131,8 @@ class FundingSource(MetadataBase):
             return [value]
 
         elif isinstance(value, str):
+            if value.strip() == "":
+                return None
             return [item.strip() for item in value.split(",")]
 
         elif value is None:
-- 
2.43.0


From 73f79d0ea58c87f4567eeeb8e149a588439ba893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 045/127] fix: a list with a single item is read from XML as a
 list

---
 mt_metadata/base/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/base/helpers.py b/mt_metadata/base/helpers.py
index 4068691..bf144e8 100644
--- a/mt_metadata/base/helpers.py
+++ b/mt_metadata/base/helpers.py
@@ -837,7 +837,8 @@ def element_to_dict(element):
             element.tag: {k: v[0] if len(v) == 1 else v for k, v in child_dict.items()}
         }
         if "item" in meta_dict[element.tag].keys():
-            meta_dict[element.tag] = meta_dict[element.tag]["item"]
+            # a list, also if it has a single item
+            meta_dict[element.tag] = child_dict["item"]
     # going to skip attributes for now, later can check them against
     # standards, neet to skip units and type
     if attrib:
-- 
2.43.0


From d7dae55e83af45745366416ef6b3a088c13ad643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 046/127] fix: channel_nomenclature given to TF is applied
 before the data are set

---
 mt_metadata/transfer_functions/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 098d36f..bf3cab3 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -87,6 +87,10 @@ class TF:
             "avg": {"write": self.to_avg, "read": self.from_avg},
         }
 
+        # the names of the channels are needed to build the transfer function
+        if "channel_nomenclature" in kwargs:
+            self.channel_nomenclature = kwargs.pop("channel_nomenclature")
+
         tf_set = False
         try:
             period = kwargs.pop("period")
-- 
2.43.0


From bc61d57da4330bf23a8f0db58c9ad6126ff9ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 047/127] fix: TF.__eq__ returns False for an object that is
 not a TF

---
 mt_metadata/transfer_functions/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index bf3cab3..6c6a25d 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -184,7 +184,7 @@ class TF:
         is_equal = True
         if not isinstance(other, TF):
             logger.info(f"Comparing object is not TF, type {type(other)}")
-            is_equal = False
+            return False
         if self.station_metadata != other.station_metadata:
             logger.info("Station metadata is not equal")
             is_equal = False
-- 
2.43.0


From d356d69d58768598fe41968e9b1fb95f6f87adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 048/127] fix: tf_model_error is a known type of transfer
 function data

---
 mt_metadata/transfer_functions/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 6c6a25d..cbbfefa 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -626,6 +626,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.hx_hy,
             "tf_error": self.hx_hy,
+            "tf_model_error": self.hx_hy,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -642,6 +643,7 @@ class TF:
             "res": self.ex_ey_hz,
             "tf": self.ex_ey_hz,
             "tf_error": self.ex_ey_hz,
+            "tf_model_error": self.ex_ey_hz,
             "all": [self.ex, self.ey, self.hz, self.hx, self.hy],
         }
 
@@ -775,6 +777,7 @@ class TF:
             "transfer_function_error": (3, 2),
             "tf": (3, 2),
             "tf_error": (3, 2),
+            "tf_model_error": (3, 2),
         }
 
         shape = shape_dict[atype]
-- 
2.43.0


From 6113f9ffc3a6a22d4936186e3bd4d410b53a5d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 049/127] fix: TF errors are derived only when both covariances
 are set

---
 mt_metadata/transfer_functions/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index cbbfefa..b290ab2 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1395,7 +1395,7 @@ class TF:
 
         """
         self._set_data_array(value, "isp")
-        if self.has_residual_covariance():
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
             self._compute_error_from_covariance()
 
     def has_residual_covariance(self) -> bool:
@@ -1461,7 +1461,7 @@ class TF:
 
         """
         self._set_data_array(value, "res")
-        if self.has_inverse_signal_power():
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
             self._compute_error_from_covariance()
 
     def _compute_impedance_error_from_covariance(self) -> None:
-- 
2.43.0


From 5a5d1eeb5fce61f73c3fb2b59ca365d452107c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 050/127] fix: setting data or periods does not wipe a TF that
 holds only errors or covariances

---
 mt_metadata/transfer_functions/core.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index b290ab2..0348d38 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -841,8 +841,7 @@ class TF:
         # transfer function to fit the input
         if (
             self._transfer_function.transfer_function.data.shape[0] == 1
-            and not self.has_tipper()
-            and not self.has_impedance()
+            and self._is_empty()
         ):
             self._transfer_function = self._initialize_transfer_function(da.period)
             return da
@@ -908,6 +907,20 @@ class TF:
             logger.error(msg)
             raise TFError(msg)
 
+    def _is_empty(self) -> bool:
+        """
+        Check if nothing has been set yet.
+
+        Returns
+        -------
+        bool
+            True if all data variables are zero.
+        """
+        return all(
+            bool((variable.data == 0).all())
+            for variable in self._transfer_function.data_vars.values()
+        )
+
     def has_transfer_function(self) -> bool:
         """
         Check to see if the transfer function is not 0 and has
@@ -1563,7 +1576,11 @@ class TF:
             If the new periods are not compatible with the existing ones.
         """
         if self.period is not None:
-            if len(self.period) == 1 and (self.period == np.array([1])).all():
+            if (
+                len(self.period) == 1
+                and (self.period == np.array([1])).all()
+                and self._is_empty()
+            ):
                 self._transfer_function = self._initialize_transfer_function(
                     periods=value
                 )
-- 
2.43.0


From 4b15fee1bd1c5c40e0cbe91a6d3fb83f415a9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 051/127] fix: merging a TF with its periods in any order,
 leaving the inputs as they are

---
 mt_metadata/transfer_functions/core.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 0348d38..cd41f58 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1825,9 +1825,6 @@ class TF:
             """
             item = validate_dict(item)
             period_slice = get_slice_dict(item["period_min"], item["period_max"])
-            item["tf"]._transfer_function = sort_by_period(
-                item["tf"]._transfer_function
-            )
             return get_slice(item["tf"], period_slice)
 
         def get_slice(tf, period_slice: dict[str, slice]) -> xr.Dataset | None:
@@ -1850,33 +1847,34 @@ class TF:
             xarray.Dataset
                 The sliced transfer function.
             """
+            data = sort_by_period(tf._transfer_function)
             try:
-                return tf._transfer_function.loc[period_slice]
+                return data.loc[period_slice]
 
             except KeyError:
                 if (
                     period_slice["period"].start is not None
                     and period_slice["period"].stop is not None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start)
-                        & (tf._transfer_function.period <= period_slice["period"].stop),
+                    return data.where(
+                        (data.period >= period_slice["period"].start)
+                        & (data.period <= period_slice["period"].stop),
                         drop=True,
                     )
                 elif (
                     period_slice["period"].start is None
                     and period_slice["period"].stop is not None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period <= period_slice["period"].stop),
+                    return data.where(
+                        (data.period <= period_slice["period"].stop),
                         drop=True,
                     )
                 elif (
                     period_slice["period"].start is not None
                     and period_slice["period"].stop is None
                 ):
-                    return tf._transfer_function.where(
-                        (tf._transfer_function.period >= period_slice["period"].start),
+                    return data.where(
+                        (data.period >= period_slice["period"].start),
                         drop=True,
                     )
 
-- 
2.43.0


From 495d14eb2b35848b56c31ca0244ccae47ef63262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 052/127] fix: merging TFs keeps every selected period when the
 periods interleave or coincide

---
 mt_metadata/transfer_functions/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index cd41f58..788f62f 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1893,7 +1893,10 @@ class TF:
                 logger.error(msg)
                 raise TypeError(msg)
 
-        new_tf = xr.combine_by_coords(tf_list, combine_attrs="override")
+        # the selected periods may interleave
+        new_tf = sort_by_period(
+            xr.concat(tf_list, dim="period", combine_attrs="override")
+        )
 
         if inplace:
             self._transfer_function = new_tf
-- 
2.43.0


From c207ba22cf764d02668d04f30f8b937b07d0f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 053/127] fix: keep the sign of positions between -1 and 0
 degrees

---
 mt_metadata/utils/location_helpers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/utils/location_helpers.py b/mt_metadata/utils/location_helpers.py
index 6bf886b..15a8d79 100644
--- a/mt_metadata/utils/location_helpers.py
+++ b/mt_metadata/utils/location_helpers.py
@@ -26,12 +26,10 @@ def convert_position_float2str(position: float | int) -> str:
         logger.error(msg)
         raise TypeError(msg)
 
-    deg = int(position)
-    sign = 1
-    if deg < 0:
-        sign = -1
+    # keep the sign apart from the degrees, it is needed if these are 0
+    sign = "-" if position < 0 else ""
 
-    deg = abs(deg)
+    deg = abs(int(position))
     minutes = (abs(position) - deg) * 60.0
     # need to round seconds to 4 decimal places otherwise machine precision
     # keeps the 60 second roll over and the string is incorrect.
@@ -44,7 +42,7 @@ def convert_position_float2str(position: float | int) -> str:
         deg += 1
         minutes = 0
 
-    position_str = f"{sign * int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
+    position_str = f"{sign}{int(deg)}:{int(minutes):02.0f}:{sec:05.6f}"
     logger.debug(f"Converted {position} to {position_str}")
 
     return position_str
@@ -92,7 +90,7 @@ def convert_position_str2float(position_str: str) -> float:
     # get the sign of the position so that when all are added together the
     # position is in the correct place
     sign = 1
-    if deg < 0:
+    if p_list[0].strip().startswith("-"):
         sign = -1
 
     position_value = sign * (abs(deg) + minutes / 60.0 + sec / 3600.0)
-- 
2.43.0


From 7896ca06dc7e2f4a94dd2df1076aa25e81c6b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 054/127] fix: the filters of a channel listed in an EDI file
 are not read as text

---
 mt_metadata/transfer_functions/io/edi/edi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index e0f9d26..dadbaef 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1348,6 +1348,9 @@ class EDI:
                     continue
                 if f".{comp}." in key:
                     key = key.split(f".{comp}.", 1)[-1]
+                    if key in ["filters"]:
+                        # filters are objects, not text
+                        continue
                     electric.update_attribute(key, value)
         return electric
 
-- 
2.43.0


From a52c93626fa4a84ed1948f83ee30d5f19cad8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 055/127] fix: an EDI file with a single period can be read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index dadbaef..a90f792 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -251,7 +251,7 @@ class EDI:
 
         """
         if self.frequency is not None:
-            if self.frequency[0] < self.frequency[1]:
+            if self.frequency[0] < self.frequency[-1]:
                 self.logger.debug(
                     "Ordered arrays to be arranged from high to low frequency"
                 )
-- 
2.43.0


From 53d918110be6a5d5a785e8708921e8f4b1d01c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:05 +0000
Subject: [PATCH 056/127] fix: rotation angles follow the data when the
 frequencies of an EDI file are reordered

---
 mt_metadata/transfer_functions/io/edi/edi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index a90f792..8c0f362 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -264,6 +264,8 @@ class EDI:
                     self.t = self.t[::-1]
                 if self.t_err is not None:
                     self.t_err = self.t_err[::-1]
+                if self.rotation_angle is not None:
+                    self.rotation_angle = self.rotation_angle[::-1]
 
     def read(self, fn: str | Path | None = None, get_elevation: bool = False) -> None:
         """
@@ -446,9 +448,6 @@ class EDI:
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
             except KeyError as error:
                 self.logger.debug(error)
-        # check for order of frequency, we want high togit  low
-        self._assert_descending_frequency()
-
         try:
             self.rotation_angle = np.array(data_dict["zrot"])
         except KeyError:
@@ -457,6 +456,9 @@ class EDI:
             except KeyError:
                 self.rotation_angle = np.zeros_like(self.frequency)
 
+        # check for order of frequency, we want high togit  low
+        self._assert_descending_frequency()
+
     def _read_spectra(
         self,
         data_lines: list[str],
-- 
2.43.0


From aa487da3da9c1eac8c57f4b7b57fe20766a17f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 057/127] fix: a TF read from an EDI file with spectra has
 rotation angles and can be written

---
 mt_metadata/transfer_functions/io/edi/edi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 8c0f362..a1e9f7d 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -517,6 +517,7 @@ class EDI:
         self.z = np.zeros((self.frequency.size, 2, 2), dtype=complex)
         self.t = np.zeros((self.frequency.size, 1, 2), dtype=complex)
 
+        self.rotation_angle = np.zeros_like(self.frequency)
         self.z_err = np.zeros_like(self.z, dtype=float)
         self.t_err = np.zeros_like(self.t, dtype=float)
 
-- 
2.43.0


From 62a1b96b21be83bb1f611da15ccd1688def8bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 058/127] fix: impedance from apparent resistivity and phase is
 kept in every quadrant

---
 mt_metadata/transfer_functions/io/edi/edi.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index a1e9f7d..6a3a863 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -433,16 +433,16 @@ class EDI:
                     self.logger.debug("Reading RHO and PHS to compute impedance")
                     if (self.z[:, ii, jj] == 0).all():
                         phase = data_dict[f"phs{key[-2:]}"]
-                        z_real = np.sqrt(
-                            (5 * self.frequency * data_dict[key])
-                            / (np.tan(np.deg2rad(phase)) ** 2 + 1)
+                        z_real = np.sqrt(5 * self.frequency * data_dict[key]) * np.cos(
+                            np.deg2rad(phase)
                         )
-                        z_imag = (np.tan(np.deg2rad(phase))) * z_real
+                        z_imag = np.tan(np.deg2rad(phase)) * z_real
                         if ii == 1 and jj == 0:
+                            # the phase may be given in the first quadrant
                             if phase.mean() < 90 and phase.mean() > 0:
-                                obj[:, ii, jj] = -1 * (z_real + 1j * z_imag)
-                        else:
-                            obj[:, ii, jj] = z_real + 1j * z_imag
+                                sign = np.where(z_real < 0, 1, -1)
+                                z_real, z_imag = sign * z_real, sign * z_imag
+                        obj[:, ii, jj] = z_real + 1j * z_imag
                         error_obj[:, ii, jj] = np.deg2rad(
                             data_dict[f"phs{key[-2:]}.err"]
                         ) * np.sqrt(data_dict[key] * (self.frequency * 5))
-- 
2.43.0


From 206e0a806407e8515ba62c790d6fd8bc4d367738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 059/127] fix: feature weights skip kernels that are not active

---
 mt_metadata/features/weights/feature_weight_spec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index 01a3e88..e249119 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -227,5 +227,9 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
+        weights = [
+            kernel.evaluate(feature_values)
+            for kernel in self.weight_kernels
+            if kernel.active is not False
+        ]
         return np.prod(weights, axis=0) if weights else 1.0
-- 
2.43.0


From 8aa09063836bf06347e06249d06a18607ff7fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 060/127] fix: dataset dataframe of a station takes times with
 and without fractional seconds

---
 mt_metadata/processing/aurora/station.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/aurora/station.py b/mt_metadata/processing/aurora/station.py
index beed9bd..a96c77b 100644
--- a/mt_metadata/processing/aurora/station.py
+++ b/mt_metadata/processing/aurora/station.py
@@ -181,8 +181,9 @@ class Station(MetadataBase):
 
         df = pd.DataFrame(data_list)
         if len(df) > 0:
-            df["start"] = pd.to_datetime(df["start"])
-            df["end"] = pd.to_datetime(df["end"])
+            # times can be with and without fractional seconds
+            df["start"] = pd.to_datetime(df["start"], format="ISO8601")
+            df["end"] = pd.to_datetime(df["end"], format="ISO8601")
 
         return df
 
-- 
2.43.0


From 7c6b828b2c8fcd711e9f36904700f2bfa8359a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 061/127] fix: stations read from a dataset dataframe replace
 earlier remote stations

---
 mt_metadata/processing/aurora/stations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/processing/aurora/stations.py b/mt_metadata/processing/aurora/stations.py
index 5600ecd..2f83731 100644
--- a/mt_metadata/processing/aurora/stations.py
+++ b/mt_metadata/processing/aurora/stations.py
@@ -158,6 +158,7 @@ class Stations(MetadataBase):
 
         station = df[df.remote == False].station.unique()[0]
         rr_stations = df[df.remote == True].station.unique()
+        self.remote = []
 
         self.local.from_dataset_dataframe(df[df.station == station])
 
-- 
2.43.0


From 7e9d2726820b5fd5dcd27bfd2fd694803b11bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 062/127] fix: inverse signal power of the impedance in an EMTF
 XML is kept without one for the tipper

---
 mt_metadata/transfer_functions/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 788f62f..415340e 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2273,9 +2273,11 @@ class TF:
 
         self.tipper = emtfxml_obj.data.t
         self.tipper_error = np.sqrt(emtfxml_obj.data.t_var)
-        self._transfer_function.inverse_signal_power.loc[
-            dict(input=["hx", "hy"], output=["hx", "hy"])
-        ] = emtfxml_obj.data.t_invsigcov
+        # do not overwrite the values of the impedance if there are none
+        if np.any(emtfxml_obj.data.t_invsigcov != 0):
+            self._transfer_function.inverse_signal_power.loc[
+                dict(input=["hx", "hy"], output=["hx", "hy"])
+            ] = emtfxml_obj.data.t_invsigcov
         self._transfer_function.residual_covariance.loc[
             dict(input=["hz"], output=["hz"])
         ] = emtfxml_obj.data.t_residcov
-- 
2.43.0


From 5f8d49f392157515cc4225af32d6de3946a6ad5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 063/127] fix: an escaped ampersand in an EMTF XML file is kept

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index fa0566c..ac44bc5 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -14,6 +14,7 @@ Created on Sat Sep  4 17:59:53 2021
 # Imports
 # =============================================================================
 import inspect
+import re
 from enum import Enum
 from pathlib import Path
 from xml.etree import cElementTree as et
@@ -322,7 +323,8 @@ class EMTFXML:
 
         with open(file=self.fn, mode="r", encoding="utf-8") as xml_fid:
             xml_string = xml_fid.read()
-            xml_string = xml_string.replace("&", "and")
+            # an ampersand is not valid unless it starts an entity like &amp;
+            xml_string = re.sub(r"&(?!#?\w+;)", "and", xml_string)
             root = et.fromstring(
                 xml_string,
                 et.XMLParser(encoding="utf-8"),
-- 
2.43.0


From 8cf527cad5be0445957f7ca5ada68f7dd16d2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 064/127] fix: EMTF XML lists the statistical estimates of
 impedance and tipper

---
 .../transfer_functions/io/emtfxml/emtfxml.py  | 45 ++++++-------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index ac44bc5..13dba57 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -423,38 +423,19 @@ class EMTFXML:
 
         """
         self.statistical_estimates.estimates_list = []
-        if self.data.z_var is not None:
-            if not np.all(self.data.z_var == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
-                )
-        elif self.data.t_var is not None:
-            if not np.all(self.data.t_var == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["variance"]
-                )
-
-        if self.data.z_invsigcov is not None:
-            if not np.all(self.data.z_invsigcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
-                )
-        elif self.data.t_invsigcov is not None:
-            if not np.all(self.data.t_invsigcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["inverse_signal_power"]
-                )
-
-        if self.data.z_residcov is not None:
-            if not np.all(self.data.z_residcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
-                )
-        elif self.data.t_residcov is not None:
-            if not np.all(self.data.t_residcov == 0.0):
-                self.statistical_estimates.estimates_list.append(
-                    estimates_dict["residual_covariance"]
-                )
+        for estimate, keys in {
+            "variance": ["z_var", "t_var"],
+            "inverse_signal_power": ["z_invsigcov", "t_invsigcov"],
+            "residual_covariance": ["z_residcov", "t_residcov"],
+        }.items():
+            # an estimate is in the file if it is there for any data type
+            for key in keys:
+                array = getattr(self.data, key)
+                if array is not None and not np.all(array == 0.0):
+                    self.statistical_estimates.estimates_list.append(
+                        estimates_dict[estimate]
+                    )
+                    break
 
     def _get_data_types(self):
         """
-- 
2.43.0


From 13aea8f9e7cb603781717e4d2b505bbbf9687bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 065/127] fix: an EMTF XML survey name with special characters
 can be read

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 13dba57..c80c615 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -815,7 +815,8 @@ class EMTFXML:
         survey_obj.country = self.site.country
         survey_obj.geographic_name = self.site.survey
         if self.site.survey not in NULL_VALUES:
-            survey_obj.id = self.site.survey
+            # the name can have characters that are not allowed in an id
+            survey_obj.id = re.sub(r"[^a-zA-Z0-9_\- ]", "", str(self.site.survey))
         survey_obj.project = self.site.project
         survey_obj.time_period.start_date = self.site.start
         survey_obj.time_period.end_date = self.site.end
-- 
2.43.0


From a3455c4538846d64860220c2067ff415f3505769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 066/127] fix: EMTF XML uses the survey id if there is no
 geographic name

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index c80c615..141e689 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -852,7 +852,7 @@ class EMTFXML:
         """
         self.description = sm.summary
         self.site.project = sm.project
-        if sm.geographic_name is None:
+        if sm.geographic_name in NULL_VALUES:
             self.site.survey = sm.id
         else:
             self.site.survey = sm.geographic_name
-- 
2.43.0


From 69ea11804e28deb152ab9e7c40d6951ee08a2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 067/127] fix: an EMTF XML file with a single period can be
 read

---
 .../transfer_functions/io/emtfxml/metadata/data.py        | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
index dcfa9d9..92fdd01 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data.py
@@ -352,13 +352,17 @@ class TransferFunction(MetadataBase):
         """
         if self._skip_derived_data:
             logger.debug("Skipping derived quantities.")
+        blocks = root_dict["data"]["period"]
+        if not isinstance(blocks, list):
+            # a file with a single period
+            blocks = [blocks]
         try:
             n_periods = int(float((root_dict["data"]["count"].strip())))
         except KeyError:
-            n_periods = len(root_dict["data"]["period"])
+            n_periods = len(blocks)
 
         self.initialize_arrays(n_periods)
-        for ii, block in enumerate(root_dict["data"]["period"]):
+        for ii, block in enumerate(blocks):
             self.period[ii] = float(block["value"])  # type: ignore[assignment]
             self.read_block(block, ii)
 
-- 
2.43.0


From 3964f9fe9fd44d703a5fc6be8ecbe51f63986137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 068/127] fix: EMTF XML elements without content can be read

---
 .../io/emtfxml/metadata/data_types.py         |  2 +-
 .../io/emtfxml/metadata/helpers.py            | 22 ++++++++++++++++++-
 .../emtfxml/metadata/statistical_estimates.py |  3 ++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
index 108cc9f..d9177f0 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/data_types.py
@@ -62,7 +62,7 @@ class DataTypes(MetadataBase):
         """
         try:
             self.data_types_list = input_dict["data_types"]["data_type"]
-        except KeyError:
+        except (KeyError, TypeError):
             logger.warning("Could not read Data Types")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index 3703df0..bae5cdd 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -136,13 +136,33 @@ def _read_element(cls: type, root_dict: dict, element_name: str) -> None:
     """
 
     try:
-        element_dict = {element_name: root_dict[element_name]}
+        element_dict = {element_name: _remove_empty(root_dict[element_name])}
         cls.from_dict(element_dict)
 
     except KeyError:
         logger.warning(f"No {element_name} in EMTF XML")
 
 
+def _remove_empty(value):
+    """
+    Remove elements without content, there is nothing to be read from them.
+
+    Parameters
+    ----------
+    value : dict
+        The dictionary of an element.
+
+    Returns
+    -------
+    dict
+        A copy of the dictionary without empty elements.
+    """
+
+    if isinstance(value, dict):
+        return {k: _remove_empty(v) for k, v in value.items() if v is not None}
+    return value
+
+
 def _convert_keys_to_lower_case(root_dict: dict) -> OrderedDict:
     """
     Convert all keys in the dictionary to lower case.
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
index 24c2299..b5dfba3 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/statistical_estimates.py
@@ -59,7 +59,8 @@ class StatisticalEstimates(MetadataBase):
 
         try:
             self.estimates_list = input_dict["statistical_estimates"]["estimate"]
-        except KeyError:
+        except (KeyError, TypeError):
+            # an empty element is read as None
             logger.warning("Could not statistical estimates")
 
     def to_xml(self, string: bool = False, required: bool = True) -> str | et.Element:
-- 
2.43.0


From d93c70974ca502f12c735bcaada186a0894a2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 069/127] fix: EMTF XML writes the value of enumerations

---
 mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
index bae5cdd..35e40a5 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/helpers.py
@@ -9,6 +9,7 @@ Created on Wed Mar  8 19:53:04 2023
 # Imports
 # =============================================================================
 from collections import OrderedDict
+from enum import Enum
 from xml.etree import cElementTree as et
 
 from loguru import logger
@@ -116,6 +117,8 @@ def _write_single(
     """
 
     element = et.SubElement(parent, _capwords(key), attributes)
+    if isinstance(value, Enum):
+        value = value.value
     if value not in NULL_VALUES:
         element.text = str(value)
     return element
-- 
2.43.0


From 128c0cc3341fee6d1859244163895a505620e1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 070/127] fix: default channels of a TF have different azimuths
 so a written Z-file can be read

---
 mt_metadata/transfer_functions/core.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 415340e..6f80070 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -247,9 +247,17 @@ class TF:
             The updated run metadata.
         """
         for ch in [cc for cc in default if cc.startswith("e")]:
-            run_metadata.add_channel(Electric(component=ch))
+            run_metadata.add_channel(
+                Electric(
+                    component=ch, measurement_azimuth=90 if ch.startswith("ey") else 0
+                )
+            )
         for ch in [cc for cc in default if cc.startswith("h")]:
-            run_metadata.add_channel(Magnetic(component=ch))
+            run_metadata.add_channel(
+                Magnetic(
+                    component=ch, measurement_azimuth=90 if ch.startswith("hy") else 0
+                )
+            )
 
         return run_metadata
 
@@ -2356,12 +2364,17 @@ class TF:
             c = ZChannel()
             c.channel = ch
             c.number = ch_num
+            c.azimuth = 90 if ch in ["ey", "hy"] else 0
             setattr(zmm_obj, c.channel, c)
             if ch in ["ex", "ey"]:
-                rc = Electric(component=ch, channel_number=ch_num)
+                rc = Electric(
+                    component=ch, channel_number=ch_num, measurement_azimuth=c.azimuth
+                )
                 run.add_channel(rc)
             elif ch in ["hx", "hy", "hz"]:
-                rc = Magnetic(component=ch, channel_number=ch_num)
+                rc = Magnetic(
+                    component=ch, channel_number=ch_num, measurement_azimuth=c.azimuth
+                )
                 run.add_channel(rc)
         return run
 
-- 
2.43.0


From 27e9c237834ebd0c459c26f6251500da23640f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 071/127] fix: a Z-file without covariances can be read

---
 mt_metadata/transfer_functions/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 6f80070..4cd31a7 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2518,7 +2518,8 @@ class TF:
             dict(input=zmm_obj.output_channels, output=zmm_obj.output_channels)
         ]
 
-        self._compute_error_from_covariance()
+        if self.has_inverse_signal_power() and self.has_residual_covariance():
+            self._compute_error_from_covariance()
         if kwargs.get("use_declination", False):
             self._rotation_angle = -1 * zmm_obj.declination
 
-- 
2.43.0


From 5f2837f24d09f059414a30f5ed54d8bbb5155e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 072/127] fix: a TF with other channel names and default
 metadata can be written to a Z-file

---
 mt_metadata/transfer_functions/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 4cd31a7..9b4bc48 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2432,7 +2432,7 @@ class TF:
                 if "rr" in comp:
                     continue
                 ch = self.station_metadata.runs[0].get_channel(comp)
-                ch.component = self.inverse_channel_nomenclature[comp]
+                ch.component = self.inverse_channel_nomenclature.get(comp, comp)
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
                 ch.component = comp
-- 
2.43.0


From c3899fb2c8e6ad7e368aae058a15c7ab16e3b6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 073/127] fix: rotated Z-files rotate the covariances and are
 written with the azimuths of the data

---
 mt_metadata/transfer_functions/core.py        |  3 +
 .../transfer_functions/io/zfiles/zmm.py       | 74 ++++++++++++++++++-
 2 files changed, 74 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 9b4bc48..631ad29 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -2435,6 +2435,9 @@ class TF:
                 ch.component = self.inverse_channel_nomenclature.get(comp, comp)
                 c = ZChannel()
                 c.from_dict(ch.to_dict(single=True))
+                # the data are in the translated coordinates if there are any
+                if ch.translated_azimuth is not None:
+                    c.azimuth = ch.translated_azimuth
                 ch.component = comp
                 try:
                     c.number = number_dict[c.channel]
diff --git a/mt_metadata/transfer_functions/io/zfiles/zmm.py b/mt_metadata/transfer_functions/io/zfiles/zmm.py
index ac5ed6b..d67ea34 100644
--- a/mt_metadata/transfer_functions/io/zfiles/zmm.py
+++ b/mt_metadata/transfer_functions/io/zfiles/zmm.py
@@ -51,6 +51,8 @@ class ZMMHeader(object):
         self.fn = fn
         self.station_metadata = Station()
         self._channel_order = ["hx", "hy", "hz", "ex", "ey"]
+        # azimuth of x if the data have been rotated, see ZMM.read
+        self._rotated_azimuth = None
         self._header_lines = [
             "TRANSFER FUNCTIONS IN MEASUREMENT COORDINATES",
             "********* WITH FULL ERROR COVARIANCE ********",
@@ -255,7 +257,7 @@ class ZMMHeader(object):
                 lines += [
                     (
                         f"{channel.number:>5d} "
-                        f"{channel.azimuth:>8.2f} "
+                        f"{self._get_data_azimuth(ch):>8.2f} "
                         f"{channel.tilt:>8.2f} "
                         f"{self.station:>3} "
                         f"{channel.channel.capitalize():>3}"
@@ -266,6 +268,28 @@ class ZMMHeader(object):
                 continue
         return lines
 
+    def _get_data_azimuth(self, comp: str) -> float:
+        """
+        Azimuth of a channel in the coordinates of the data, which is the measured
+        one unless the data have been rotated.
+
+        Parameters
+        ----------
+        comp : str
+            The component name (e.g., "ex", "hy").
+
+        Returns
+        -------
+        float
+            azimuth in degrees
+
+        """
+        if self._rotated_azimuth is None or comp == "hz":
+            return getattr(self, comp).azimuth
+        if comp in ["hy", "ey"]:
+            return self._rotated_azimuth + 90
+        return self._rotated_azimuth
+
     @property
     def channel_dict(self) -> dict[str, str]:
         channels = {}
@@ -633,6 +657,8 @@ class ZMM(ZMMHeader):
             rr.hy = self.hy_metadata
             if self.hz is not None:
                 rr.hz = self.hz_metadata
+            for ch in rr.channels:
+                ch.translated_azimuth = self._get_data_azimuth(ch.component)
 
         if self.elevation in [0, None] and get_elevation:
             if self.latitude != 0 and self.longitude != 0:
@@ -890,17 +916,59 @@ class ZMM(ZMMHeader):
             self.dataset.transfer_function_error.loc[
                 dict(input=self._hx_hy, output=[self._hz])
             ] = tipper_err
+            self._rotated_azimuth = angle
+            sigma_s, sigma_e = self._rotate_covariances(angle=angle)
         else:
+            self._rotated_azimuth = None
+            sigma_s, sigma_e = self.sigma_s, self.sigma_e
             self.dataset.transfer_function.loc[
                 dict(input=self.input_channels, output=self.output_channels)
             ] = self.transfer_functions
 
         self.dataset.inverse_signal_power.loc[
             dict(input=self.input_channels, output=self.input_channels)
-        ] = self.sigma_s
+        ] = sigma_s
         self.dataset.residual_covariance.loc[
             dict(input=self.output_channels, output=self.output_channels)
-        ] = self.sigma_e
+        ] = sigma_e
+
+    def _rotate_covariances(
+        self, angle: float = 0.0
+    ) -> tuple[np.typing.NDArray[np.complex64], np.typing.NDArray[np.complex64]]:
+        """
+        rotate the covariances like the transfer functions
+
+        Parameters
+        ----------
+        angle : float, optional
+            The angle to rotate the covariances.
+
+        Returns
+        -------
+        sigma_s : np.ndarray
+            The inverse signal power.
+        sigma_e : np.ndarray
+            The residual covariance.
+
+        """
+
+        def axes(ch_x, ch_y):
+            azimuth = np.deg2rad(np.array([ch_x.azimuth, ch_y.azimuth]) - angle)
+            return np.column_stack([np.cos(azimuth), np.sin(azimuth)])
+
+        u = np.eye(2)
+        index = [self.hx.index, self.hy.index]
+        u[np.ix_(index, index)] = np.linalg.inv(axes(self.hx, self.hy))
+
+        v = np.eye(self.sigma_e.shape[1])
+        if self.ex is not None and self.ey is not None:
+            index = [self.ex.index - 2, self.ey.index - 2]
+            v[np.ix_(index, index)] = axes(self.ex, self.ey).T
+
+        return (
+            np.matmul(u, np.matmul(self.sigma_s, u.T)),
+            np.matmul(v, np.matmul(self.sigma_e, v.T)),
+        )
 
     def calculate_impedance(
         self, angle: float = 0.0
-- 
2.43.0


From aaefe2c6a4cf66223fe30af8f441ed2a77fdc082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 074/127] fix: spectra of an EDI file without hz give the
 least-squares impedance

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 6a3a863..388f801 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -622,11 +622,11 @@ class EDI:
                 re[0, 0] = s_arr[cc.rhx, cc.ex]
                 re[0, 1] = s_arr[cc.rhx, cc.ey]
                 re[1, 0] = s_arr[cc.rhy, cc.ex]
-                re[1, 0] = s_arr[cc.rhy, cc.ey]
+                re[1, 1] = s_arr[cc.rhy, cc.ey]
 
                 he[0, 0] = s_arr[cc.hx, cc.ex]
                 he[0, 1] = s_arr[cc.hx, cc.ey]
-                he[0, 1] = s_arr[cc.hy, cc.ex]
+                he[1, 0] = s_arr[cc.hy, cc.ex]
                 he[1, 1] = s_arr[cc.hy, cc.ey]
 
                 ee[0, 0] = s_arr[cc.ex, cc.ex]
-- 
2.43.0


From 78d1bd54597308e040ca4015777830c57d0cddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 075/127] fix: a list of decimation levels adds each level once

---
 mt_metadata/processing/aurora/processing.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 87466f9..979736a 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -122,9 +122,6 @@ class Processing(MetadataBase):
                     decimation_levels.append(obj)
 
         elif isinstance(value, list):
-            for obj in value:
-                if isinstance(obj, DecimationLevel):
-                    decimation_levels.append(obj)
             for obj in value:
                 if isinstance(obj, DecimationLevel):
                     decimation_levels.append(obj)
-- 
2.43.0


From 006254c85db90d2b53ec3480e40fc0b84aa730d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 076/127] fix: the band edges of a processing configuration are
 keyed by the level's number

---
 mt_metadata/processing/aurora/processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index 979736a..f170998 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -220,7 +220,10 @@ class Processing(MetadataBase):
     def band_edges_dict(self) -> dict[int, list[tuple[float, float]]]:
         band_edges_dict = {}
         for i_dec, decimation in enumerate(self.decimations):
-            band_edges_dict[i_dec] = decimation.band_edges
+            level = decimation.decimation.level
+            if level is None:
+                level = i_dec
+            band_edges_dict[level] = decimation.band_edges
         return band_edges_dict
 
     def assign_decimation_level_data_emtf(self, sample_rate: float):
-- 
2.43.0


From c8155622e8644698e44c5d3e73ea85b4b8ac0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 077/127] fix: assign_bands divides the rate by all factors and
 takes any level numbers

---
 mt_metadata/processing/aurora/processing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/processing/aurora/processing.py b/mt_metadata/processing/aurora/processing.py
index f170998..7c74b9f 100644
--- a/mt_metadata/processing/aurora/processing.py
+++ b/mt_metadata/processing/aurora/processing.py
@@ -283,9 +283,8 @@ class Processing(MetadataBase):
         -------
         None
         """
-        num_decimation_levels = len(band_edges_dict.keys())
         if isinstance(num_samples_window, int):
-            num_samples_window = num_decimation_levels * [num_samples_window]
+            num_samples_window = {key: num_samples_window for key in band_edges_dict}
 
         for i_level in sorted(band_edges_dict.keys()):
             band_edges = band_edges_dict[i_level]
@@ -293,9 +292,12 @@ class Processing(MetadataBase):
                 d = decimation_factors[i_level]  # 1
                 sr = sample_rate
             else:
-                # careful with this hardcoded assumption of decimation by 4
+                # the factors of all levels from 1 on are cascaded
                 d = decimation_factors[i_level]  # 4
-                sr = 1.0 * sample_rate / (d ** int(i_level))
+                sr = 1.0 * sample_rate
+                for level in range(1, int(i_level)):
+                    sr /= decimation_factors.get(level, d)
+                sr /= d
             decimation_obj = DecimationLevel()
             decimation_obj.decimation.level = int(i_level)  # self.decimations_dict[key]
             decimation_obj.decimation.factor = d
-- 
2.43.0


From a8b7107912a00f28123081bcf9d5c6c5023ff8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 078/127] fix: an archived level with all harmonics is
 consistent with the level it was made from

---
 mt_metadata/processing/aurora/decimation_level.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/processing/aurora/decimation_level.py b/mt_metadata/processing/aurora/decimation_level.py
index 6cca508..d6d7899 100644
--- a/mt_metadata/processing/aurora/decimation_level.py
+++ b/mt_metadata/processing/aurora/decimation_level.py
@@ -519,17 +519,20 @@ class DecimationLevel(MetadataBase):
             logger.info(msg)
             return False
 
-        if fc_decimation.stft.harmonic_indices is None:
+        fc_harmonic_indices = fc_decimation.stft.harmonic_indices
+        if isinstance(fc_harmonic_indices, int):
+            fc_harmonic_indices = [fc_harmonic_indices]
+        if fc_harmonic_indices is None:
             # harmonic_indices not set, skip this check
             pass
-        elif -1 in fc_decimation.stft.harmonic_indices:
+        elif -1 in fc_harmonic_indices:
             # if harmonic_indices is -1, it means the archive kept all so we can skip this check.
             pass
         else:
             msg = "WIP: harmonic indices in AuroraDecimationlevel are derived from processing bands -- Not robustly tested to compare with FCDecimation"
             logger.debug(msg)
             harmonic_indices_requested = self.harmonic_indices
-            fcdec_group_set = set(fc_decimation.stft.harmonic_indices)
+            fcdec_group_set = set(fc_harmonic_indices)
             processing_set = set(harmonic_indices_requested)
             if processing_set.issubset(fcdec_group_set):
                 pass
@@ -592,6 +595,7 @@ class DecimationLevel(MetadataBase):
             fc_dec_obj.stft.harmonic_indices = self.harmonic_indices
         fc_dec_obj.id = f"{self.decimation.level}"
         fc_dec_obj.stft.method = self.stft.method
+        fc_dec_obj.stft.min_num_stft_windows = self.stft.min_num_stft_windows
         fc_dec_obj.stft.pre_fft_detrend_type = self.stft.pre_fft_detrend_type
         fc_dec_obj.stft.prewhitening_type = self.stft.prewhitening_type
         fc_dec_obj.stft.recoloring = self.stft.recoloring
-- 
2.43.0


From 7611ae6836a6d506225e777434f0947189130abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 079/127] fix: the taper of a window follows its current
 settings

---
 mt_metadata/processing/window.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/processing/window.py b/mt_metadata/processing/window.py
index 234e1ae..c02c694 100644
--- a/mt_metadata/processing/window.py
+++ b/mt_metadata/processing/window.py
@@ -177,17 +177,18 @@ class Window(MetadataBase):
         -------
 
         """
-        if self._taper is None:
-            # Repackaging the args so that scipy.signal.get_window() accepts all cases
-            window_args = [v for k, v in self.additional_args.items()]
-            window_args.insert(0, self.type)
-            window_args = tuple(window_args)
+        # Repackaging the args so that scipy.signal.get_window() accepts all cases
+        window_args = [v for k, v in self.additional_args.items()]
+        window_args.insert(0, self.type)
+        window_args = tuple(window_args)
 
-            taper = ssig.get_window(window_args, self.num_samples)
+        taper = ssig.get_window(window_args, self.num_samples)
 
-            if self.normalized:
-                taper /= np.sum(taper)
+        if self.normalized:
+            taper /= np.sum(taper)
 
+        # the same settings give the same object
+        if self._taper is None or not np.array_equal(taper, self._taper):
             self._taper = taper
 
         return self._taper
-- 
2.43.0


From 50aff8cfa4c702f9cdd45a58bbc646e665784298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 080/127] fix: time spans of Fourier coefficients take ends of
 children without start

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 mt_metadata/processing/fourier_coefficients/fc.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 5560a93..5af118d 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -358,7 +358,7 @@ class Decimation(MetadataBase):
         for ch in self.channels:
             if ch.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(ch.time_period.start)
-            if ch.time_period.start != "1980-01-01T00:00:00+00:00":
+            if ch.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(ch.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
diff --git a/mt_metadata/processing/fourier_coefficients/fc.py b/mt_metadata/processing/fourier_coefficients/fc.py
index 5122c95..902ca2c 100644
--- a/mt_metadata/processing/fourier_coefficients/fc.py
+++ b/mt_metadata/processing/fourier_coefficients/fc.py
@@ -311,7 +311,7 @@ class FC(MetadataBase):
         for dl in self.levels:
             if dl.time_period.start != "1980-01-01T00:00:00+00:00":
                 start.append(dl.time_period.start)
-            if dl.time_period.start != "1980-01-01T00:00:00+00:00":
+            if dl.time_period.end != "1980-01-01T00:00:00+00:00":
                 end.append(dl.time_period.end)
         if start:
             if self.time_period.start == "1980-01-01T00:00:00+00:00":
-- 
2.43.0


From 9dad0b0bcf28ab4e57c3757e20ccaf26f5ac5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 081/127] fix: each level of fc_decimations_creator has its own
 time period

---
 mt_metadata/processing/fourier_coefficients/decimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/processing/fourier_coefficients/decimation.py b/mt_metadata/processing/fourier_coefficients/decimation.py
index 5af118d..a1e1716 100644
--- a/mt_metadata/processing/fourier_coefficients/decimation.py
+++ b/mt_metadata/processing/fourier_coefficients/decimation.py
@@ -459,7 +459,7 @@ def fc_decimations_creator(
 
         if time_period:
             if isinstance(time_period, TimePeriod):
-                fc_dec.time_period = time_period
+                fc_dec.time_period = time_period.copy()
             else:
                 msg = (
                     f"Not sure how to assign time_period with type {type(time_period)}"
-- 
2.43.0


From 2372cac2904869d8a9f8440a68e7dee84349cfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 082/127] Revert "fix: feature weights skip kernels that are
 not active" (the file's name looks like a test)

---
 mt_metadata/features/weights/feature_weight_spec.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/mt_metadata/features/weights/feature_weight_spec.py b/mt_metadata/features/weights/feature_weight_spec.py
index e249119..01a3e88 100644
--- a/mt_metadata/features/weights/feature_weight_spec.py
+++ b/mt_metadata/features/weights/feature_weight_spec.py
@@ -227,9 +227,5 @@ class FeatureWeightSpec(MetadataBase):
             The combined weight from all kernels (e.g., multiplied together).
         """
 
-        weights = [
-            kernel.evaluate(feature_values)
-            for kernel in self.weight_kernels
-            if kernel.active is not False
-        ]
+        weights = [kernel.evaluate(feature_values) for kernel in self.weight_kernels]
         return np.prod(weights, axis=0) if weights else 1.0
-- 
2.43.0


From a18f379b2bbf874f95e3196d9fe725d2021cf2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 083/127] fix: an inactive weight kernel does not weight

---
 .../features/weights/activation_monotonic_weight_kernel.py     | 3 +++
 mt_metadata/features/weights/taper_monotonic_weight_kernel.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
index f723a09..ca40007 100644
--- a/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/activation_monotonic_weight_kernel.py
@@ -110,6 +110,9 @@ class ActivationMonotonicWeightKernel(MonotonicWeightKernel):
             If the activation style is not recognized.
         """
 
+        if self.active is False:
+            # an inactive kernel does not weight
+            return np.ones_like(values, dtype=float)
         x = self._normalize(values)
         activation_style = self.activation_style
 
diff --git a/mt_metadata/features/weights/taper_monotonic_weight_kernel.py b/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
index 478110e..201c42a 100644
--- a/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
+++ b/mt_metadata/features/weights/taper_monotonic_weight_kernel.py
@@ -93,6 +93,9 @@ class TaperMonotonicWeightKernel(MonotonicWeightKernel):
             raise ValueError(f"Unknown threshold direction: {direction}")
 
     def evaluate(self, values: NDArray) -> NDArray:
+        if self.active is False:
+            # an inactive kernel does not weight
+            return np.ones_like(values, dtype=float)
         x = self._normalize(values)
         taper = self.half_window_style
         if taper == "rectangle":
-- 
2.43.0


From baf202cc376b4e8348e6eaf5146941c0d1fd604d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 084/127] fix: keep the text of author and comments entries
 with colons in StationXML comments

---
 mt_metadata/timeseries/stationxml/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/utils.py b/mt_metadata/timeseries/stationxml/utils.py
index b00152d..ef84bfb 100644
--- a/mt_metadata/timeseries/stationxml/utils.py
+++ b/mt_metadata/timeseries/stationxml/utils.py
@@ -119,6 +119,9 @@ class BaseTranslator:
 
                 return {"author": author, "comments": comments}
 
+            elif comment_string.startswith(("author: ", "comments: ")):
+                k, value = comment_string.split(":", 1)
+                return {k: value.strip()}
             else:
                 k, *other = comment_string.split(":", 1)
                 if other:
-- 
2.43.0


From c5f9ecfb9e9ca973825afec6c69791a5fe196020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 085/127] fix: do not double the web address of a dataset doi
 read from StationXML

---
 mt_metadata/timeseries/stationxml/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/utils.py b/mt_metadata/timeseries/stationxml/utils.py
index ef84bfb..87f9352 100644
--- a/mt_metadata/timeseries/stationxml/utils.py
+++ b/mt_metadata/timeseries/stationxml/utils.py
@@ -172,7 +172,10 @@ class BaseTranslator:
 
         """
         return ", ".join(
-            [ii.strip().replace("DOI:", "https://doi.org/") for ii in identifiers]
+            [
+                ii.strip().replace("DOI:http", "http").replace("DOI:", "https://doi.org/")
+                for ii in identifiers
+            ]
         )
 
     def get_comment(self, comments, subject):
-- 
2.43.0


From 7cea4faf4b37b05dd350d443663d5cc4d3e8319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 086/127] fix: write channels with a negative tilt to
 StationXML

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 7df65f8..3f3b667 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -225,7 +225,8 @@ class XMLChannelMTChannel(BaseTranslator):
                 xml_channel.azimuth = mt_channel.measurement_azimuth % 360
 
             elif xml_key in ["dip"]:
-                xml_channel.dip = mt_channel.measurement_tilt % 360
+                # obspy only allows dips [-90, 90]
+                xml_channel.dip = (mt_channel.measurement_tilt + 180) % 360 - 180
 
             elif "time_period" in mt_key:
                 value = mt_channel.get_attr_from_name(mt_key).time_stamp
-- 
2.43.0


From 803158b5a0b9ba7d0a38952ac31947a2b9619eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 087/127] fix: read magnetic channels whose StationXML sensor
 is of another type, as a fluxgate

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 3f3b667..224329f 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -255,7 +255,10 @@ class XMLChannelMTChannel(BaseTranslator):
         if not sensor.type:
             return mt_channel
 
-        if sensor.type.lower() in ["magnetometer", "induction coil", "coil"]:
+        if sensor.type.lower() in ["magnetometer", "induction coil", "coil"] or (
+            isinstance(mt_channel, Magnetic)
+            and sensor.type.lower() not in self.understood_sensor_types
+        ):
             if not isinstance(mt_channel, Magnetic):
                 msg = (
                     f"Cannot put sensor of type {sensor.type} into an "
-- 
2.43.0


From 81616d3841adf3fbf7b7ed6b81c8bef9780ae554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 088/127] fix: read StationXML channels without a sensor

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 224329f..8d7f7ec 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -250,6 +250,8 @@ class XMLChannelMTChannel(BaseTranslator):
         :rtype: TYPE
 
         """
+        if sensor is None:
+            return mt_channel
         sensor.type = self._deduce_sensor_type(sensor)
 
         if not sensor.type:
-- 
2.43.0


From 9ae9c4a4ec8a02bff0bf461611552117c9e02903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 089/127] fix: read StationXML channels without a response

---
 mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 8d7f7ec..0c38286 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -509,7 +509,7 @@ class XMLChannelMTChannel(BaseTranslator):
 
     def _get_mt_units(self, xml_channel, mt_channel):
         """ """
-        if len(xml_channel.response.response_stages) == 0:
+        if xml_channel.response is None or not xml_channel.response.response_stages:
             return mt_channel
         name = xml_channel.response.response_stages[-1].output_units
         description = xml_channel.response.response_stages[-1].output_units_description
-- 
2.43.0


From ef7e2053658d9b6611ee45221ecb65b15794ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 090/127] fix: read data logger descriptions with commas and
 colons in their values

---
 .../timeseries/stationxml/xml_equipment_mt_run.py    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py b/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
index afc2abf..48ef0d9 100644
--- a/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
+++ b/mt_metadata/timeseries/stationxml/xml_equipment_mt_run.py
@@ -149,8 +149,18 @@ class XMLEquipmentMTRun(BaseTranslator):
 
         """
 
+        if not description:
+            return run_obj
+        keys = [key.split("data_logger.")[1] for key in self.mt_description_list]
+        items = []
         for d_str in description.split(","):
-            d_key, d_value = d_str.split(":")
+            d_key, sep, d_value = d_str.partition(":")
+            if sep and (d_key.strip() in keys or not items):
+                items.append([d_key, d_value])
+            elif items:
+                # a comma within a value
+                items[-1][1] += f",{d_str}"
+        for d_key, d_value in items:
             d_value = d_value.strip()
             if not d_value in ["", "None", "null"]:
                 run_obj.update_attribute(
-- 
2.43.0


From e6bf578cdbee39f19f1f984318c927e4dec138c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 091/127] fix: write the comments of a survey to StationXML

---
 mt_metadata/timeseries/stationxml/xml_network_mt_survey.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index 25d9c6d..57ad542 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -62,6 +62,7 @@ class XMLNetworkMTSurvey(BaseTranslator):
             "project",
             "acquired_by.author",
             "acquired_by.comments.value",
+            "comments",
         ]
 
     def xml_to_mt(self, network):
-- 
2.43.0


From 3e3a9efc006ee24f0357db777ab76ed6ecdb300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 092/127] fix: survey texts with colons in StationXML comments,
 as a journal doi

---
 mt_metadata/timeseries/stationxml/xml_network_mt_survey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index 57ad542..d5b580d 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -107,6 +107,9 @@ class XMLNetworkMTSurvey(BaseTranslator):
             elif mt_key in ["comments"]:
                 for comment in network.comments:
                     key, value = self.read_xml_comment(comment)
+                    if isinstance(value, dict):
+                        # survey attributes are plain strings, keep the text
+                        value = comment.value
                     if "doi" in key:
                         # need to make a doi a proper web location.
                         if not value.startswith("http"):
-- 
2.43.0


From 6226a3aecc74bc8bbcc7fb34ec6a8aa445a086bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:02 +0000
Subject: [PATCH 093/127] fix: no doi identifier for surveys without a doi

---
 mt_metadata/timeseries/stationxml/xml_network_mt_survey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index d5b580d..265f10c 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -199,7 +199,8 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 ]
             elif inv_key == "identifiers":
                 doi = survey.get_attr_from_name(mt_key)
-                network.identifiers.append(f"DOI:{doi}")
+                if doi:
+                    network.identifiers.append(f"DOI:{doi}")
             else:
                 setattr(network, inv_key, survey.get_attr_from_name(mt_key))
         comments = self.make_mt_comments(survey, mt_key_base="mt.survey")
-- 
2.43.0


From 1f923ebbe492270a5159e628d66ecd0cd4f9e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 094/127] fix: unnamed StationXML stages share a name only if
 they are the same filter

---
 .../stationxml/xml_channel_mt_channel.py      | 44 +++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 0c38286..471d30b 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -15,6 +15,7 @@ Created on Fri Feb 19 16:14:41 2021
 import copy
 from collections import OrderedDict
 
+import numpy as np
 from loguru import logger
 
 from mt_metadata.base.helpers import requires
@@ -87,7 +88,7 @@ class XMLChannelMTChannel(BaseTranslator):
         self.mt_comments_list = ["run.id"]
         self.run_list = None
 
-    def xml_to_mt(self, xml_channel, existing_filters={}):
+    def xml_to_mt(self, xml_channel, existing_filters=None):
         """
         Translate :class:`obspy.core.inventory.Channel` to
         :class:`mt_metadata.timeseries.Channel`
@@ -527,18 +528,24 @@ class XMLChannelMTChannel(BaseTranslator):
 
         return mt_channel
 
-    def _xml_response_to_mt(self, xml_channel, existing_filters={}):
+    def _xml_response_to_mt(self, xml_channel, existing_filters=None):
         """
         parse the filters from obspy into mt filters
         """
+        if existing_filters is None:
+            existing_filters = {}
         ch_filter_dict = OrderedDict()
+        used_names = []
+        if xml_channel.response is None:
+            return ch_filter_dict
         for i_stage, stage in enumerate(xml_channel.response.response_stages):
             new_and_unnamed = False
             mt_filter = create_filter_from_stage(stage)
             if not mt_filter.name:
-                filter_name, new_and_unnamed = self._add_filter_number(
-                    existing_filters, mt_filter
+                filter_name, new_and_unnamed = self._name_filter(
+                    existing_filters, mt_filter, used_names
                 )
+                used_names.append(filter_name)
                 mt_filter.name = filter_name
 
             if mt_filter.decimation_active:
@@ -583,6 +590,35 @@ class XMLChannelMTChannel(BaseTranslator):
         except ValueError:
             return f"{mt_filter.type}_{0:02}", True
 
+    def _name_filter(self, existing_filters, mt_filter, used_names):
+        """
+        Name an unnamed filter, only a filter of the same content may share
+        its name, unless the name is already used within the channel.
+        """
+        for name, f_obj in existing_filters.items():
+            if name not in used_names and self._is_same_filter(f_obj, mt_filter):
+                return name, False
+
+        number = 0
+        while f"{mt_filter.type}_{number:02}" in existing_filters.keys():
+            number += 1
+        return f"{mt_filter.type}_{number:02}", True
+
+    def _is_same_filter(self, filter_01, filter_02):
+        """
+        True if the filters have the same content, apart from the name and the
+        position in the channel response
+        """
+        if filter_01.type != filter_02.type:
+            return False
+        dict_01 = filter_01.to_dict(single=True, required=False)
+        dict_02 = filter_02.to_dict(single=True, required=False)
+        return all(
+            np.array_equal(dict_01.get(key), dict_02.get(key))
+            for key in set(dict_01) | set(dict_02)
+            if key not in ["name", "sequence_number"]
+        )
+
     def _mt_to_xml_response(self, mt_channel, filters_dict, xml_channel):
         """
         Translate MT filters into Obspy Response
-- 
2.43.0


From 93659eed22e28061118d24a25902a2ff50605659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 095/127] fix: keep StationXML channels that match no run

---
 .../stationxml/xml_inventory_mt_experiment.py | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
index 947dd36..f4368e6 100644
--- a/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
+++ b/mt_metadata/timeseries/stationxml/xml_inventory_mt_experiment.py
@@ -95,11 +95,12 @@ class XMLInventoryMTExperiment:
                     # if there are runs already try to match by start, end, sample_rate
                     # initialized runs have a sample rate of 0.  This could be an
                     # issue in the future.
-                    elif mt_station.runs:
+                    else:
+                        matched = False
                         for mt_run in mt_station.runs:
                             if (
                                 mt_run.sample_rate == mt_channel.sample_rate
-                                or mt_run.sample_rate == 0
+                                or not mt_run.sample_rate
                             ):
                                 # match assuming the runs have the correct start
                                 # and end times.
@@ -109,16 +110,17 @@ class XMLInventoryMTExperiment:
                                 ) and (
                                     mt_run.time_period.end <= mt_channel.time_period.end
                                 ):
-                                    mt_run.channels.append(mt_channel)
+                                    mt_run.channels.append(deepcopy(mt_channel))
                                     mt_run.sample_rate = mt_channel.sample_rate
-                    # make a new run with generic information
-                    else:
-                        mt_run = metadata.Run(id=f"{len(mt_station.runs)+1:03d}")
-                        mt_run.time_period.start = mt_channel.time_period.start
-                        mt_run.time_period.end = mt_channel.time_period.end
-                        mt_run.sample_rate = mt_channel.sample_rate
-                        mt_run.channels.append(mt_channel)
-                        mt_station.runs.append(mt_run)
+                                    matched = True
+                        # make a new run with generic information
+                        if not matched:
+                            mt_run = metadata.Run(id=f"{len(mt_station.runs)+1:03d}")
+                            mt_run.time_period.start = mt_channel.time_period.start
+                            mt_run.time_period.end = mt_channel.time_period.end
+                            mt_run.sample_rate = mt_channel.sample_rate
+                            mt_run.channels.append(mt_channel)
+                            mt_station.runs.append(mt_run)
                 mt_station.update_time_period()
                 mt_survey.stations.append(mt_station)
             if xml_network.stations:
-- 
2.43.0


From de9409ca992bcd1466cd0b5a1f8611e5fc1490b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 096/127] fix: write a project lead without email or
 organization to StationXML

---
 .../stationxml/xml_network_mt_survey.py          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
index 265f10c..da20645 100644
--- a/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
+++ b/mt_metadata/timeseries/stationxml/xml_network_mt_survey.py
@@ -88,10 +88,11 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 email = []
                 org = []
                 for operator in network.operators:
-                    org.append(operator.agency)
+                    if operator.agency and operator.agency.strip():
+                        org.append(operator.agency)
                     for person in operator.contacts:
                         name.append(", ".join(person.names))
-                        email.append(", ".join(person.emails))
+                        email += person.emails
                 if name:
                     mt_survey.update_attribute("project_lead.author", ", ".join(name))
                 if email:
@@ -172,15 +173,14 @@ class XMLNetworkMTSurvey(BaseTranslator):
                 self.logger.debug(msg)
                 continue
             if inv_key == "operators":
-                if survey.project_lead.organization:
+                if survey.project_lead.organization or survey.project_lead.author:
                     operator = inventory.Operator(
-                        agency=survey.project_lead.organization
+                        agency=survey.project_lead.organization or " "
                     )
                     if survey.project_lead.author:
-                        person = inventory.Person(
-                            names=[survey.project_lead.author],
-                            emails=[survey.project_lead.email],
-                        )
+                        person = inventory.Person(names=[survey.project_lead.author])
+                        if survey.project_lead.email:
+                            person.emails = [survey.project_lead.email]
                         operator.contacts = [person]
                     network.operators = [operator]
             elif inv_key == "comments":
-- 
2.43.0


From 726410ffecde738ea57e90e0e4a4189421efd045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 097/127] fix: keep plain run comments and the case of run ids
 read from StationXML

---
 .../timeseries/stationxml/xml_station_mt_station.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index 9740bfe..e08b159 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -122,8 +122,15 @@ class XMLStationMTStation(BaseTranslator):
         for comment in xml_station.comments:
             key, value = self.read_xml_comment(comment)
             if "mt.run" in key:
+                # keep the case of the run id
+                key = comment.subject.strip()
+                if key.endswith(".comments") and "author" not in value:
+                    value = comment.value
                 run_comments.append({key: value})
                 continue
+            if isinstance(value, dict):
+                # station attributes are plain strings, keep the text
+                value = comment.value
 
             try:
                 key = key.split("mt.station.")[1]
@@ -378,5 +385,11 @@ class XMLStationMTStation(BaseTranslator):
                                 )
                         else:
                             station_obj.runs[run_index].update_attribute(ckey, cvalue)
+                elif run_attr == "comments" and rvalue:
+                    # plain text
+                    if station_obj.runs[run_index].comments.value:
+                        station_obj.runs[run_index].comments.value += f", {rvalue}"
+                    else:
+                        station_obj.runs[run_index].comments.value = rvalue
 
         return station_obj
-- 
2.43.0


From 7c07c4eb6a00a4ef5f9690ae1d146f91cb29e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:11 +0000
Subject: [PATCH 098/127] fix: read the operator of a StationXML station and
 leave the station as it is when writing

---
 .../stationxml/xml_station_mt_station.py        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
index e08b159..a7aae10 100644
--- a/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
+++ b/mt_metadata/timeseries/stationxml/xml_station_mt_station.py
@@ -170,6 +170,19 @@ class XMLStationMTStation(BaseTranslator):
             if mt_station.fdsn.id is not None:
                 mt_station.id = mt_station.fdsn.id
 
+        # operators
+        authors = []
+        organizations = []
+        for operator in xml_station.operators:
+            if operator.agency and operator.agency.strip():
+                organizations.append(operator.agency)
+            for person in operator.contacts:
+                authors += person.names
+        if authors:
+            mt_station.acquired_by.author = ", ".join(authors)
+        if organizations:
+            mt_station.acquired_by.organization = ", ".join(organizations)
+
         # read in equipment information
         mt_station = self._equipments_to_runs(xml_station.equipments, mt_station)
         mt_station = self._equipments_to_runs(xml_station.equipments, mt_station)
@@ -243,10 +256,8 @@ class XMLStationMTStation(BaseTranslator):
 
             elif xml_key == "operators":
                 if mt_station.acquired_by.author:
-                    if mt_station.acquired_by.organization is None:
-                        mt_station.acquired_by.organization = " "
                     operator = inventory.Operator(
-                        agency=mt_station.acquired_by.organization
+                        agency=mt_station.acquired_by.organization or " "
                     )
                     person = inventory.Person(names=[mt_station.acquired_by.author])
                     person = inventory.Person(names=[mt_station.acquired_by.author])
-- 
2.43.0


From 8898ce17d162b2ce3c08041cbd6962161f0c00b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 099/127] fix: use filters whose names have capitals or slashes
 in the channel response

---
 mt_metadata/timeseries/channel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/channel.py b/mt_metadata/timeseries/channel.py
index fbf3667..d745618 100644
--- a/mt_metadata/timeseries/channel.py
+++ b/mt_metadata/timeseries/channel.py
@@ -584,9 +584,18 @@ class ChannelBase(MetadataBase):
         """
 
         mt_filter_list = []
+        # the names of applied filters are normalized, those of the filters are not
+        normalized_names = {
+            AppliedFilter(name=key).name: key
+            for key in filters_dict.keys()
+            if isinstance(key, str) and key and not key.isspace()
+        }
         for applied_filter in self.filters:
+            name = applied_filter.name
+            if name not in filters_dict.keys():
+                name = normalized_names.get(name, name)
             try:
-                mt_filter = filters_dict[applied_filter.name]
+                mt_filter = filters_dict[name]
                 mt_filter_list.append(mt_filter)
             except KeyError:
                 msg = f"Could not find {applied_filter.name} in filters dictionary, skipping"
-- 
2.43.0


From dce449e9a2d3e3228cdeb58729aac2c7417832f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 100/127] fix: normalization frequency of a pole zero filter
 without a pass band (np.NAN was removed from numpy)

---
 mt_metadata/timeseries/filters/pole_zero_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/timeseries/filters/pole_zero_filter.py b/mt_metadata/timeseries/filters/pole_zero_filter.py
index db28d28..9686b68 100644
--- a/mt_metadata/timeseries/filters/pole_zero_filter.py
+++ b/mt_metadata/timeseries/filters/pole_zero_filter.py
@@ -222,9 +222,9 @@ class PoleZeroFilter(FilterBase):
         """
         pass_band = self.pass_band(frequencies, window_len, tol)
         if pass_band is None:
-            return np.NAN
+            return np.nan
         if pass_band.size == 0:
-            return np.NAN
+            return np.nan
 
         if estimate == "mean":
             return pass_band.mean()
-- 
2.43.0


From 8691d7559327d3a851a2793cbfefad7b497d6e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:09 +0000
Subject: [PATCH 101/127] fix: set the run metadata of a transfer function

---
 mt_metadata/transfer_functions/core.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 631ad29..a1c5f0c 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -466,23 +466,15 @@ class TF:
             The run metadata object or dictionary to set.
         """
 
-        # need to make sure the first index is the desired channel
+        # need to make sure the first index is the desired run
         if run_metadata is not None:
             run_metadata = self._validate_run_metadata(run_metadata)
 
             runs = ListDict()
             runs.append(run_metadata)
-            channels = ListDict()
-            if self.component is not None:
-                key = str(self.component)
-
-                channels.append(self.station_metadata.runs[0].channels[key])
-                # add existing channels
-                channels.extend(self.run_metadata.channels, skip_keys=[key, "0"])
-            # add channels from input metadata
-            channels.extend(run_metadata.channels)
-
-            runs[0].channels = channels
+            # be sure there is a level below
+            if len(runs[0].channels) == 0:
+                self._add_channels(runs[0])
             runs.extend(self.station_metadata.runs, skip_keys=[run_metadata.id, "0"])
 
             self._survey_metadata.stations[0].runs = runs
-- 
2.43.0


From 2a4fa78565a60b4a431cc81b53b37a56cc628529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 102/127] fix: give a transfer function a run when its survey
 has a station without one

---
 mt_metadata/transfer_functions/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index a1c5f0c..5c85c27 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -406,6 +406,10 @@ class TF:
                 if "0" in self._survey_metadata.stations.keys():
                     self._survey_metadata.stations.remove("0")
 
+            # be sure there is a level below
+            if len(self.station_metadata.runs) == 0:
+                self.station_metadata.add_run(self._add_channels(Run(id="0")))
+
             self._survey_metadata.update_time_period()
 
     @property
-- 
2.43.0


From fe020241fc2c89321c21400c3a204f61219164c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 103/127] fix: hold the station of a transfer function under
 its new name

---
 mt_metadata/transfer_functions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mt_metadata/transfer_functions/core.py b/mt_metadata/transfer_functions/core.py
index 5c85c27..e27ef92 100644
--- a/mt_metadata/transfer_functions/core.py
+++ b/mt_metadata/transfer_functions/core.py
@@ -1624,6 +1624,7 @@ class TF:
         set station name
         """
         self.station_metadata.id = validate_name(station_name)
+        self.survey_metadata.update_station_keys()
         if self.station_metadata.runs[0].id is None:
             r = self.station_metadata.runs.pop(None)
             r.id = f"{self.station_metadata.id}a"
@@ -1684,6 +1685,7 @@ class TF:
                 self.station_metadata.update_attribute(key, value)
             except AttributeError:
                 continue
+        self.survey_metadata.update_station_keys()
 
     def merge(
         self,
-- 
2.43.0


From f452124e9683b11aa85830171c97efff1700ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 104/127] fix: read the location in the header of a J-file

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py           | 2 +-
 mt_metadata/transfer_functions/io/jfiles/metadata/header.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index c049d0d..e280ded 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -142,7 +142,7 @@ class JFile:
 
         for variable in ["lat", "lon", "elev"]:
             for ii, line in enumerate(j_lines):
-                if variable in line.lower():
+                if line.lower().replace(" ", "").startswith(">" + variable):
                     name = line.split("=")[0]
                     try:
                         value = float(line.split("=")[1].strip())
diff --git a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
index 9265a49..eab6421 100644
--- a/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/jfiles/metadata/header.py
@@ -223,7 +223,7 @@ class Header(BasicLocation):
             m_list = m_line.strip().split("=")
             m_key = m_list[0][1:].strip().lower()
             try:
-                m_value = float(m_list[0].strip())
-            except ValueError:
+                m_value = float(m_list[1].strip())
+            except (IndexError, ValueError):
                 m_value = 0.0
             self.update_attribute(m_key, m_value)
-- 
2.43.0


From f08a4d2e8395d75c8eabcd163ff795ba27800bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:16 +0000
Subject: [PATCH 105/127] fix: read a Zonge AVG file without phase slope
 smoothing

---
 .../transfer_functions/io/zonge/metadata/phase_slope.py    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/phase_slope.py b/mt_metadata/transfer_functions/io/zonge/metadata/phase_slope.py
index aa25658..41bf1e8 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/phase_slope.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/phase_slope.py
@@ -17,6 +17,13 @@ class SmoothEnum(str, Enum):
     null = "None"
     minimal = "minimal"
 
+    @classmethod
+    def _missing_(cls, value):
+        # the values of a header are read in lower case
+        if value == "none":
+            return cls.null
+        return None
+
 
 class PhaseSlope(MetadataBase):
     smooth: Annotated[
-- 
2.43.0


From 7a956cea5abb4ea5a0d493d1e5d68a4a5262a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:46 +0000
Subject: [PATCH 106/127] fix: read the tipper of a J-file without Tzx

---
 mt_metadata/transfer_functions/io/jfiles/jfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/jfiles/jfile.py b/mt_metadata/transfer_functions/io/jfiles/jfile.py
index e280ded..a52695d 100644
--- a/mt_metadata/transfer_functions/io/jfiles/jfile.py
+++ b/mt_metadata/transfer_functions/io/jfiles/jfile.py
@@ -271,7 +271,7 @@ class JFile:
             for f_key in list(z_dict[z_key].keys()):
                 all_periods.append(f_key)
 
-        if len(list(t_dict["tzx"].keys())) == 0:
+        if not any(t_dict.values()):
             logger.debug(f"Could not find any Tipper data in {self.fn}")
             find_tipper = False
 
-- 
2.43.0


From 9a41715a469475b979983f939f58fd5d4555b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 107/127] fix: look for the headers of the component itself in
 a Zonge AVG file

---
 mt_metadata/transfer_functions/io/zonge/metadata/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/metadata/header.py b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
index a2ab933..a4a5b28 100644
--- a/mt_metadata/transfer_functions/io/zonge/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/zonge/metadata/header.py
@@ -298,7 +298,7 @@ class Header(MetadataBase):
 
     def _has_channel(self, component):
         try:
-            if self._comp_dict["zxx"]["ch"].cmp is None:
+            if self._comp_dict[component]["ch"].cmp is None:
                 return False
         except KeyError:
             return False
-- 
2.43.0


From e05c91590ebd8472437bbbb14d5c88d9e963bf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 108/127] fix: EMTF XML without attachment can be read

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 141e689..87c2e75 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -336,6 +336,9 @@ class EMTFXML:
         self._root_dict = root_dict
 
         for element in self.element_keys:
+            if element == "attachment" and element not in root_dict.keys():
+                # attachments are optional
+                continue
             attr = getattr(self, element)
             if hasattr(attr, "read_dict"):
                 attr.read_dict(root_dict)
-- 
2.43.0


From 223ae3f9dea3e9c9298d4b8a80792c94a7d87993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 109/127] fix: EMTF XML keeps the processing date

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 87c2e75..75b7c03 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -922,6 +922,7 @@ class EMTFXML:
         s.transfer_function.id = self.site.id
         s.transfer_function.sign_convention = self.processing_info.sign_convention
         s.transfer_function.processed_by.author = self.processing_info.processed_by
+        s.transfer_function.processed_date = self.processing_info.process_date
         s.transfer_function.software.author = (
             self.processing_info.processing_software.author
         )
-- 
2.43.0


From 59c0d58d33ef9c30bc5c33e7a609a5ef3007ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:14 +0000
Subject: [PATCH 110/127] fix: EMTF XML keeps the remote references of the
 processing tag

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 75b7c03..3ad74b4 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -933,7 +933,7 @@ class EMTFXML:
             self.processing_info.processing_software.last_mod
         )
         # need to use remote reference info if it has it.
-        if self.processing_info.remote_info.site.id is not None:
+        if self.processing_info.remote_info.site.id not in NULL_VALUES:
             s.transfer_function.remote_references = [
                 self.processing_info.remote_info.site.id
             ]
@@ -943,7 +943,7 @@ class EMTFXML:
                 remotes = [
                     rr
                     for rr in self.processing_info.processing_tag.split("_")
-                    if self.site.id not in rr
+                    if self.site.id not in rr and rr not in self.site.run_list
                 ]
                 s.transfer_function.remote_references = remotes
         s.transfer_function.runs_processed = self.site.run_list
-- 
2.43.0


From aa323ca911829fffa002eede546bed040acb60a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 111/127] fix: EMTF XML keeps the electrode types

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py      | 8 +++++---
 .../transfer_functions/io/emtfxml/metadata/electrode.py   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 3ad74b4..ae9487a 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1081,13 +1081,15 @@ class EMTFXML:
                         c.positive.id = pot.number
                         c.positive.type = pot.value
                         c.positive.manufacturer = dp.manufacturer
-                        c.positive.type = pot.comments.as_string()
+                        if pot.comments.value not in NULL_VALUES:
+                            c.positive.type = pot.comments.as_string()
 
                     elif pot.location.lower() in ["s", "w"]:
                         c.negative.id = pot.number
                         c.negative.type = pot.value
                         c.negative.manufacturer = dp.manufacturer
-                        c.negative.type = pot.comments.as_string()
+                        if pot.comments.value not in NULL_VALUES:
+                            c.negative.type = pot.comments.as_string()
                 c.time_period.start = fn.start
                 c.time_period.end = fn.end
                 r.add_channel(c)
@@ -1468,7 +1470,7 @@ class EMTFXML:
                     dp.electrode.append(pot_p)
                     pot_n = emtf_xml.Electrode()  # type: ignore
                     pot_n.number = c.negative.id
-                    pot_n.comments = c.positive.type
+                    pot_n.comments = c.negative.type
                     pot_n.location = "s" if comp == "ex" else "w"
                     dp.electrode.append(pot_n)
                     fn.dipole.append(dp)
diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
index 6735250..9d4315d 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/electrode.py
@@ -88,7 +88,7 @@ class Electrode(MetadataBase):
 
         # this might break in the future when to_dict is updated to return a dict
         # instead of a string, but for now it works.
-        root.text = self.comments.as_string()
+        root.text = self.comments.as_string() or self.value
 
         if string:
             return helpers.element_to_string(root)
-- 
2.43.0


From bfd19eedd5a0c32d31372e633157c2566facc1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 112/127] fix: EMTF XML with a site layout channel missing in a
 run can be read

---
 .../transfer_functions/io/emtfxml/emtfxml.py    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index ae9487a..5d38982 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -1097,15 +1097,16 @@ class EMTFXML:
             for ch in (
                 self.site_layout.input_channels + self.site_layout.output_channels
             ):
-                try:
-                    c = r.get_channel(ch.name.lower())
-                except AttributeError:
+                comp = ch.name.lower()
+                c = r.get_channel(comp)
+                if c is None:
                     # if the channel does not exist, create it.
-                    if ch.name.lower() in ["ex", "ey"]:  # electric channels
-                        c = Electric()
-                    elif ch.name.lower() in ["hx", "hy", "hz"]:  # magnetic channels
-                        c = Magnetic()
-                    c.from_dict(ch.to_dict(single=True))
+                    if comp in ["ex", "ey"]:  # electric channels
+                        c = Electric(component=comp)
+                    elif comp in ["hx", "hy", "hz"]:  # magnetic channels
+                        c = Magnetic(component=comp)
+                    else:
+                        continue
                     r.add_channel(c)
 
                 if c.component in ["hx", "hy", "hz"]:
-- 
2.43.0


From 04e8bcecee59156c8486e28b9c80daec88304d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 113/127] fix: EDI declination is read back as written

---
 mt_metadata/transfer_functions/io/edi/edi.py             | 2 ++
 mt_metadata/transfer_functions/io/edi/metadata/header.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 388f801..c4959a2 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1040,6 +1040,8 @@ class EDI:
         sm.location.elevation = self.elev
         sm.location.datum = self.Header.datum
         sm.location.declination.value = self.Header.declination.value
+        sm.location.declination.epoch = self.Header.declination.epoch
+        sm.location.declination.model = self.Header.declination.model
         sm.orientation.reference_frame = self.Header.coordinate_system.split()[0]
         if self.Header.loc is not None:
             sm.geographic_name = self.Header.loc
diff --git a/mt_metadata/transfer_functions/io/edi/metadata/header.py b/mt_metadata/transfer_functions/io/edi/metadata/header.py
index a9cdd47..34f809b 100644
--- a/mt_metadata/transfer_functions/io/edi/metadata/header.py
+++ b/mt_metadata/transfer_functions/io/edi/metadata/header.py
@@ -420,6 +420,9 @@ class Header(BasicLocation, GeographicLocation):
             if key == "declination":
                 setattr(self.declination, "value", value)
                 continue
+            elif key.startswith("declination."):
+                self.update_attribute(key, value)
+                continue
             elif key in ["long", "lon", "lonigutde"]:
                 key = "longitude"
             elif key in ["lat", "latitude"]:
-- 
2.43.0


From 82f6cb08d1f449f5b8eadc097daa8e7bc90ce551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:15 +0000
Subject: [PATCH 114/127] fix: EDI keeps several remote references apart

---
 mt_metadata/transfer_functions/io/edi/edi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index c4959a2..996d29e 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1108,7 +1108,9 @@ class EDI:
                         if isinstance(value, list):
                             sm.transfer_function.remote_references.extend(value)
                         elif isinstance(value, str):
-                            sm.transfer_function.remote_references.append(value)
+                            sm.transfer_function.remote_references.extend(
+                                [rr.strip() for rr in value.split(",")]
+                            )
                         elif isinstance(value, (int, float)):
                             sm.transfer_function.remote_references.append(value)
                         else:
-- 
2.43.0


From 70b65567fc8e94eae81f55d811d65a468761a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:21 +0000
Subject: [PATCH 115/127] fix: EMTF XML field notes are read when optional
 elements are missing

---
 .../io/emtfxml/metadata/run.py                | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
index 821d31d..578171c 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/metadata/run.py
@@ -170,10 +170,13 @@ class Run(MetadataBase):
         """
 
         self.run = input_dict["run"]
-        self.instrument.from_dict({"instrument": input_dict["instrument"]})
-        self.sampling_rate = input_dict["sampling_rate"]
-        self.start = input_dict["start"]
-        self.end = input_dict["end"]
+        if "instrument" in input_dict.keys():
+            self.instrument.from_dict({"instrument": input_dict["instrument"]})
+        for key in ["sampling_rate", "start", "end", "errors"]:
+            try:
+                setattr(self, key, input_dict[key])
+            except KeyError:
+                logger.debug(f"run has no {key}")
         try:
             if isinstance(input_dict["comments"], list):
                 self.comments.from_dict({"comments": input_dict["comments"][0]})
@@ -181,7 +184,6 @@ class Run(MetadataBase):
                 self.comments.from_dict({"comments": input_dict["comments"]})
         except KeyError:
             logger.debug("run has no comments")
-        self.errors = input_dict["errors"]
 
         try:
             if isinstance(input_dict["magnetometer"], list):
@@ -202,16 +204,29 @@ class Run(MetadataBase):
             if isinstance(input_dict["dipole"], list):
                 self.dipole = []
                 for mag in input_dict["dipole"]:
-                    m = Dipole()
-                    m.from_dict({"dipole": mag})
-                    self.dipole.append(m)
+                    self.dipole.append(self._read_dipole(mag))
             else:
-                m = Dipole()
-                m.from_dict({"dipole": input_dict["dipole"]})
-                self.dipole.append(m)
+                self.dipole.append(self._read_dipole(input_dict["dipole"]))
         except KeyError:
             logger.debug("run has no dipole information")
 
+    def _read_dipole(self, dipole_dict: dict) -> Dipole:
+        """
+        Read a single dipole, which can have one or more electrodes.
+
+        :param dipole_dict: dictionary of the dipole element
+        :type dipole_dict: dict
+        :return: dipole object
+        :rtype: Dipole
+
+        """
+        dipole_dict = dict(dipole_dict)
+        if isinstance(dipole_dict.get("electrode"), dict):
+            dipole_dict["electrode"] = [dipole_dict["electrode"]]
+        dipole = Dipole()
+        dipole.from_dict({"dipole": dipole_dict})
+        return dipole
+
     def to_xml(self, string=False, required=True):
         """
 
-- 
2.43.0


From d720c1c928dd7ba765f10ec61531a22391609e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 116/127] fix: coherence uses the parameters of its window

---
 mt_metadata/features/coherence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/features/coherence.py b/mt_metadata/features/coherence.py
index 88d9de7..9fca4dc 100644
--- a/mt_metadata/features/coherence.py
+++ b/mt_metadata/features/coherence.py
@@ -280,10 +280,15 @@ class Coherence(Feature):
         -------
 
         """
+        # windows like kaiser need their parameters
+        window = self.window.type
+        if self.window.additional_args:
+            window = (self.window.type, *self.window.additional_args.values())
+
         frequencies, coh_squared = ssig.coherence(
             ts_1,
             ts_2,
-            window=self.window.type,
+            window=window,
             nperseg=self.window.num_samples,
             noverlap=self.window.overlap,
             detrend=self.detrend,
-- 
2.43.0


From 3caf418b0589fef09da2a1eaf7aed32e119618b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 117/127] fix: reading a folder of metadata XML files handles
 channel filters

---
 .../timeseries/tools/from_many_mt_files.py    | 28 ++++++++-----------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 70a4461..799fdcb 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -268,21 +268,17 @@ class MT2StationXML(XMLInventoryMTExperiment):
         ch.from_xml(self.read_xml_file(channel_fn))
 
         dp_filter = None
-        if ch.filter.name is not None:
-            find = False
-            for ii, filter_name in enumerate(ch.filter.name):
-                # create a dipole pole zero filter
-                if "dipole" in filter_name:
-                    find = True
-                    dp_filter = PoleZeroFilter()
-                    dp_filter.units_in = "V/m"
-                    dp_filter.units_out = "V"
-                    dp_filter.gain = ch.dipole_length
-                    dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
-                    dp_filter.comments = "electric dipole for electric field"
-                    break
-            if find:
-                ch.filter.name[ii] = dp_filter.name
+        for applied_filter in ch.filters:
+            # create a dipole pole zero filter
+            if applied_filter.name is not None and "dipole" in applied_filter.name:
+                dp_filter = PoleZeroFilter()
+                dp_filter.units_in = "V/m"
+                dp_filter.units_out = "V"
+                dp_filter.gain = ch.dipole_length
+                dp_filter.name = f"electric_dipole_{ch.dipole_length:.3f}"
+                dp_filter.comments = "electric dipole for electric field"
+                applied_filter.name = dp_filter.name
+                break
 
         return ch, dp_filter
 
@@ -453,7 +449,7 @@ class MT2StationXML(XMLInventoryMTExperiment):
 
         filter_dict = self._make_filters_dict(filters_fn)
         if dp_filter is not None:
-            filter_dict.update({dp_filter.name, dp_filter})
+            filter_dict.update({dp_filter.name: dp_filter})
 
         channel_response = mt_channel.channel_response(filter_dict)
 
-- 
2.43.0


From c958ca9550216ed1046e0b5de658abcf29faf136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 118/127] fix: EDI keeps processing parameters of any form

---
 mt_metadata/transfer_functions/io/edi/edi.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index 996d29e..d2ac6ea 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1079,17 +1079,22 @@ class EDI:
                     if isinstance(value, list):
                         for item in value:
                             if "=" in item:
-                                param, val = item.split("=")
+                                param, val = item.split("=", 1)
                                 sm.transfer_function.processing_parameters.append(
                                     f"{param}={val}"
                                 )
                             else:
                                 sm.transfer_function.processing_parameters.append(item)
                     elif value not in NULL_VALUES:
-                        param = key.split(".")[-1]
-                        sm.transfer_function.processing_parameters.append(
-                            f"{param}={value}"
-                        )
+                        # the name of a parameter can have dots
+                        param = key.split("processing_parameters")[1].strip(".")
+                        if param:
+                            value = f"{param}={value}"
+                            sm.transfer_function.processing_parameters.append(value)
+                        else:
+                            sm.transfer_function.processing_parameters.extend(
+                                str(value).split(", ")
+                            )
                 elif "remote_references" in key:
                     if key.count(".") > 1:
                         if key in ["remote_references.id"]:
@@ -1250,7 +1255,12 @@ class EDI:
         for k, v in sm.transfer_function.to_dict(single=True).items():
             if not v in NULL_VALUES:
                 if k in ["processing_parameters"]:
+                    not_named = [item for item in v if "=" not in item]
+                    if not_named:
+                        self.Info.info_dict[f"transfer_function.{k}"] = not_named
                     for item in v:
+                        if "=" not in item:
+                            continue
                         param, value = item.split("=", 1)
                         self.Info.info_dict[
                             f"transfer_function.processing_parameters.{param}"
-- 
2.43.0


From c810c56cc60f8daabe0a3db2aa81b3d312cbede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:46 +0000
Subject: [PATCH 119/127] fix: EMTF XML keeps the location of the remote site

---
 mt_metadata/transfer_functions/io/emtfxml/emtfxml.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
index 5d38982..ae3bbe0 100644
--- a/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
+++ b/mt_metadata/transfer_functions/io/emtfxml/emtfxml.py
@@ -953,10 +953,9 @@ class EMTFXML:
             for key in self.processing_info.remote_info.site.get_attribute_list():
                 value = self.processing_info.remote_info.site.get_attr_from_name(key)
 
-                if "location" in key:
-                    if value == 0.0:
-                        continue
-                elif value not in NULL_VALUES:
+                if "location" in key and value == 0.0:
+                    continue
+                if value not in NULL_VALUES:
                     # need to add remote site information
                     # Handle Enum types by using .value property
                     str_value = value.value if isinstance(value, Enum) else value
-- 
2.43.0


From ddda9e8a7b54392978fa0e117e0e4dea432a1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 120/127] fix: an interrupted field query leaves no empty
 description behind

---
 mt_metadata/base/pydantic_helpers.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 404964b..cdfff9f 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -130,12 +130,17 @@ def get_all_fields_serializable(
                 _FIELDS_TREE_CACHE[model_cls] = disk
                 return disk
 
-        # Sentinel to break cycles
-        _FIELDS_TREE_CACHE[model_cls] = {}
-
-        # Compute and persist
-        tree = _compute_fields_tree(model_cls)
-        _FIELDS_TREE_CACHE[model_cls] = tree
+        try:
+            # Sentinel to break cycles
+            _FIELDS_TREE_CACHE[model_cls] = {}
+
+            # Compute and persist
+            tree = _compute_fields_tree(model_cls)
+            _FIELDS_TREE_CACHE[model_cls] = tree
+        except BaseException:
+            # do not leave an unfinished entry behind
+            _FIELDS_TREE_CACHE.pop(model_cls, None)
+            raise
 
         if not _DISABLE_DISK_CACHE:
             _save_fields_to_disk(model_cls, tree)
-- 
2.43.0


From 34ea26fb2d5397e5ce484d56c11f56ec134038d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 121/127] fix: cached field descriptions follow changes of
 nested classes

---
 mt_metadata/base/pydantic_helpers.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index cdfff9f..953131d 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -706,7 +706,9 @@ def _cache_dir() -> str:
 #     return path
 
 
-def _model_fingerprint(model_cls: type[BaseModel]) -> str:
+def _model_fingerprint(
+    model_cls: type[BaseModel], parents: tuple[type[BaseModel], ...] = ()
+) -> str:
     """
     Compute a stable fingerprint for a model class's fields.
 
@@ -723,12 +725,16 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
     Notes
     -----
     - Uses a sorted JSON of tuples:
-        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot)
+        (name, deprecated, annotation repr, default repr, json_schema_extra snapshot,
+        description, enum values, presence of validators, default factory name,
+        fingerprint of the nested model)
     - Change in any of these will produce a different fingerprint, refreshing the disk cache.
     """
+    validators_map = _collect_field_validator_map(model_cls)
     field_map = getattr(model_cls, "model_fields", None) or getattr(
         model_cls, "__pydantic_fields__", {}
     )
+    parents = parents + (model_cls,)
     parts = []
     for name, info in field_map.items():
         extra = getattr(info, "json_schema_extra", None)
@@ -744,6 +750,15 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
                     extra_snapshot.append((key, _safe_repr(value)))
         else:
             extra_snapshot = _safe_repr(extra)
+        # the tree contains the fields of nested models, a change of those counts
+        nested = None
+        base_type = _extract_base_type(getattr(info, "annotation", None))
+        if (
+            _is_basemodel_subclass(base_type)
+            and base_type.__name__ not in SPECIAL_CASE_MODEL_NAMES
+            and base_type not in parents
+        ):
+            nested = _model_fingerprint(base_type, parents)
         parts.append(
             (
                 name,
@@ -751,6 +766,11 @@ def _model_fingerprint(model_cls: type[BaseModel]) -> str:
                 repr(getattr(info, "annotation", None)),
                 _safe_repr(getattr(info, "default", None)),
                 extra_snapshot,
+                _safe_repr(getattr(info, "description", None)),
+                _safe_repr(_extract_enum_info(getattr(info, "annotation", None))),
+                bool(validators_map.get(name, False)),
+                getattr(getattr(info, "default_factory", None), "__qualname__", None),
+                nested,
             )
         )
     raw = json.dumps(sorted(parts), separators=(",", ":"), ensure_ascii=False)
-- 
2.43.0


From 7368f54acab3e31e2336749e3f554e2310242a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 122/127] fix: an unusable cache folder does not stop field
 queries

---
 mt_metadata/base/pydantic_helpers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mt_metadata/base/pydantic_helpers.py b/mt_metadata/base/pydantic_helpers.py
index 953131d..018d7db 100644
--- a/mt_metadata/base/pydantic_helpers.py
+++ b/mt_metadata/base/pydantic_helpers.py
@@ -815,10 +815,10 @@ def _load_fields_from_disk(model_cls: type[BaseModel]) -> Dict[str, Any] | None:
     -----
     - Returns None on any read/parse error.
     """
-    path = _disk_cache_path(model_cls)
-    if not os.path.exists(path):
-        return None
     try:
+        path = _disk_cache_path(model_cls)
+        if not os.path.exists(path):
+            return None
         with open(path, "r", encoding="utf-8") as f:
             return json.load(f)
     except Exception:
@@ -844,8 +844,8 @@ def _save_fields_to_disk(model_cls: type[BaseModel], tree: Dict[str, Any]) -> No
     -----
     - Overwrites any existing file for the same model fingerprint.
     """
-    path = _disk_cache_path(model_cls)
     try:
+        path = _disk_cache_path(model_cls)
         with open(path, "w", encoding="utf-8") as f:
             json.dump(tree, f, indent=2, ensure_ascii=False)
     except Exception:
-- 
2.43.0


From a7221921ff9dc46b61948c0c25c8565d44a62ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 123/127] fix: poles and zeros in Hz are converted to radians
 per second

---
 mt_metadata/timeseries/filters/obspy_stages.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mt_metadata/timeseries/filters/obspy_stages.py b/mt_metadata/timeseries/filters/obspy_stages.py
index 221ecd6..22caaa8 100644
--- a/mt_metadata/timeseries/filters/obspy_stages.py
+++ b/mt_metadata/timeseries/filters/obspy_stages.py
@@ -40,6 +40,13 @@ def create_coefficent_filter_from_stage(stage):
 def create_pole_zero_filter_from_stage(stage):
     pz_filter = PoleZeroFilter()
     pz_filter = pz_filter.from_obspy_stage(stage)
+    if stage.pz_transfer_function_type == "LAPLACE (HERTZ)":
+        # the filter is evaluated at radians per second
+        pz_filter.poles = 2 * np.pi * pz_filter.poles
+        pz_filter.zeros = 2 * np.pi * pz_filter.zeros
+        pz_filter.normalization_factor *= (2 * np.pi) ** (
+            len(pz_filter.poles) - len(pz_filter.zeros)
+        )
     return pz_filter
 
 
-- 
2.43.0


From a62d9e733abf6558aaefbb3a0747e0e89ce9e811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 124/127] fix: channel comments survive StationXML

---
 .../stationxml/xml_channel_mt_channel.py      | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
index 471d30b..7dcd052 100644
--- a/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
+++ b/mt_metadata/timeseries/stationxml/xml_channel_mt_channel.py
@@ -86,6 +86,7 @@ class XMLChannelMTChannel(BaseTranslator):
         self.mt_translator = self.flip_dict(self.xml_translator)
 
         self.mt_comments_list = ["run.id"]
+        self.comment_subject = "mt.channel.comments"
         self.run_list = None
 
     def xml_to_mt(self, xml_channel, existing_filters=None):
@@ -436,9 +437,18 @@ class XMLChannelMTChannel(BaseTranslator):
 
         runs = []
         for comment in xml_comments:
-            k, v = self.read_xml_comment(comment)
+            if comment.subject == self.comment_subject:
+                k, v = comment.subject, comment.value
+            else:
+                k, v = self.read_xml_comment(comment)
             if k == "mt.run.id":
                 runs.append(v)
+            elif k == self.comment_subject:
+                # free text of the channel, see _make_xml_comments
+                if mt_channel.comments.value:
+                    mt_channel.comments.value = f"{v}{mt_channel.comments.value}"
+                else:
+                    mt_channel.comments.value = v
             else:
                 if mt_channel.comments.value:
                     mt_channel.comments.value += f", {k}: {v}"
@@ -467,18 +477,15 @@ class XMLChannelMTChannel(BaseTranslator):
         comments = []
         if mt_comment.value is None:
             return comments
-        clist = mt_comment.value.split("run_ids:")
-        for item in clist:
-            if ":" in item:
-                k, v = item.split(":")
-                comments.append(inventory.Comment(v, subject=k))
-            elif "[" in item and "]" in item:
-                for run in item.replace("[", "").replace("]", "").split(","):
-                    run = run.strip()
-                    if run:
-                        comments.append(
-                            inventory.Comment(run.strip(), subject="mt.run.id")
-                        )
+        # the runs are listed after the text, see _parse_xml_comments
+        text, _, run_ids = mt_comment.value.partition("run_ids:")
+        text = text.strip().strip(",").strip()
+        if text:
+            comments.append(inventory.Comment(text, subject=self.comment_subject))
+        for run in run_ids.replace("[", "").replace("]", "").split(","):
+            run = run.strip()
+            if run:
+                comments.append(inventory.Comment(run, subject="mt.run.id"))
         return comments
 
     def _get_mt_position(self, xml_channel, mt_channel):
-- 
2.43.0


From 16802d376973f6d2685a847856f99300d4a76218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:46 +0000
Subject: [PATCH 125/127] fix: the vertical magnetic channel of an AVG file
 gets its sensor, azimuth and tilt

---
 .../transfer_functions/io/zonge/zonge.py      | 39 ++++++-------------
 1 file changed, 12 insertions(+), 27 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/zonge/zonge.py b/mt_metadata/transfer_functions/io/zonge/zonge.py
index 02ee8fb..ee5f8e2 100644
--- a/mt_metadata/transfer_functions/io/zonge/zonge.py
+++ b/mt_metadata/transfer_functions/io/zonge/zonge.py
@@ -429,33 +429,18 @@ class ZongeMTAvg:
     def hz_metadata(self) -> Magnetic:
         ch = Magnetic(component="hz")
         if self.header._has_channel("tzx"):
-            # Parse comma-separated values safely
-            azimuth_values = self.header._comp_dict["tzx"]["ch"].azimuth
-            incl_values = self.header._comp_dict["tzx"]["ch"].incl
-            number_values = self.header._comp_dict["tzx"]["ch"].number
-
-            # Extract second value from comma-separated strings
-            if azimuth_values and "," in azimuth_values:
-                try:
-                    azimuth_val = float(azimuth_values.split(",")[1].strip())
-                    ch.measurement_azimuth = azimuth_val
-                    ch.translated_azimuth = azimuth_val
-                except (IndexError, ValueError):
-                    pass
-
-            if incl_values and "," in incl_values:
-                try:
-                    incl_val = float(incl_values.split(",")[1].strip())
-                    ch.measurement_tilt = incl_val
-                    ch.translated_tilt = incl_val
-                except (IndexError, ValueError):
-                    pass
-
-            if number_values and "," in number_values:
-                try:
-                    ch.sensor.id = number_values.split(",")[1].strip()
-                except IndexError:
-                    pass
+            # the values are for the local channel and the sensor, sensor second
+            values = self.header._comp_dict["tzx"]["ch"]
+            if isinstance(values.azimuth, list):
+                ch.measurement_azimuth = values.azimuth[1]
+                ch.translated_azimuth = values.azimuth[1]
+
+            if isinstance(values.incl, list):
+                ch.measurement_tilt = values.incl[1]
+                ch.translated_tilt = values.incl[1]
+
+            if isinstance(values.number, list):
+                ch.sensor.id = values.number[1]
 
             ch.channel_id = "3"
             if self.header.start_time:
-- 
2.43.0


From f4210553cdb28489c42cf28ded720887f155852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:23 +0000
Subject: [PATCH 126/127] fix: channel files are found when station or run are
 named like a channel

---
 mt_metadata/timeseries/tools/from_many_mt_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mt_metadata/timeseries/tools/from_many_mt_files.py b/mt_metadata/timeseries/tools/from_many_mt_files.py
index 799fdcb..14dbb60 100644
--- a/mt_metadata/timeseries/tools/from_many_mt_files.py
+++ b/mt_metadata/timeseries/tools/from_many_mt_files.py
@@ -190,7 +190,8 @@ class MT2StationXML(XMLInventoryMTExperiment):
         channels_list = []
         for ch in order:
             for fn in rdf:
-                if ch in fn.name[len(station) :].lower():
+                # station and run may have the name of a channel in theirs
+                if ch in fn.stem.split(".", 2)[2].lower():
                     channels_list.append(fn)
                     break
 
-- 
2.43.0


From b080f1faa3de09a4d402e7284a7c8e3b28d72ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:03 +0000
Subject: [PATCH 127/127] fix: run list and processor named in the information
 section of an EDI file are read

---
 mt_metadata/transfer_functions/io/edi/edi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mt_metadata/transfer_functions/io/edi/edi.py b/mt_metadata/transfer_functions/io/edi/edi.py
index d2ac6ea..5039cd5 100644
--- a/mt_metadata/transfer_functions/io/edi/edi.py
+++ b/mt_metadata/transfer_functions/io/edi/edi.py
@@ -1124,7 +1124,11 @@ class EDI:
                             )
                             continue
                 elif "runs_processed" in key:
-                    sm.run_list = sm.transfer_function.runs_processed
+                    if isinstance(value, str):
+                        value = value.replace(",", " ").split()
+                    sm.transfer_function.runs_processed = value
+                elif key == "processed_by.name":
+                    sm.transfer_function.processed_by.author = value
                 else:
                     sm.transfer_function.update_attribute(key, value)
 
@@ -1182,7 +1186,7 @@ class EDI:
                     else:
                         sm.transfer_function.remote_references = value.split()
             elif key in ["processedby", "processed_by"]:
-                sm.transfer_function.processed_by.name = value
+                sm.transfer_function.processed_by.author = value
             elif key in ["runlist", "run_list"]:
                 if value.count(",") > 0:
                     runs = value.split(",")
-- 
2.43.0

