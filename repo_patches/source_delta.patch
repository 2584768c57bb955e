From 705504143230bec4b7a1735a4f4153c4a47fd655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 01/67] fix: ignore inactive branches when searching the cycles
 of a sub-network

An inactive branch cannot carry flow, but the cycles it closes were still
recorded in sub_network.C. The Kirchhoff voltage constraint of such a cycle
then forced the flows of the remaining, active branches to sum to zero.
---
 pypsa/pf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..90d6a24 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1381,13 +1381,13 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     cycles from the MultiGraph must be collected separately (for cases
     where there are multiple lines between the same pairs of buses).
 
-    Cycles with infinite impedance are skipped.
+    Cycles with infinite impedance or with inactive branches are skipped.
     """
     branches_bus0 = sub_network.branches()["bus0"]
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(weight=weight, inf_weight=False, include_inactive=False)
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From dca1928e4affb8adb8815beeadd34f876bfebccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:08 +0000
Subject: [PATCH 02/67] fix: adjacency_matrix dropped all branches if the last
 component had no active one

---
 pypsa/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..2bc6681 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -137,7 +137,7 @@ def adjacency_matrix(
         raise TypeError(" must be called with a Network or a SubNetwork")
 
     no_buses = len(busorder)
-    no_branches = 0
+    total_branches = 0
     bus0_inds = []
     bus1_inds = []
     weight_vals = []
@@ -146,13 +146,14 @@ def adjacency_matrix(
         sel = c.static[active].index
 
         no_branches = len(c.static.loc[sel])
+        total_branches += no_branches
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
             np.ones(no_branches) if weights is None else weights[c.name][sel].values
         )
 
-    if no_branches == 0:
+    if total_branches == 0:
         return sp.sparse.coo_matrix((no_buses, no_buses))
 
     bus0_inds = np.concatenate(bus0_inds)
-- 
2.43.0


From b24b668c680580b4d91c572b58a97b4e8c9aad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 03/67] fix: unit commitment state at the start of a later
 optimisation window

The up (down) time before the window was clipped to the minimum up (down)
time before deriving whether the unit is initially up (down). Without a
minimum up time a running unit therefore counted as offline and its start-up
cost was charged again in every window. The up/down time before the first
snapshot was also forgotten for units that did not change since then.
---
 pypsa/optimization/constraints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..821c48d 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -182,16 +182,19 @@ def define_operational_constraints_for_committables(
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
+        # units which were up ever since the first snapshot of the network
+        up_time_before += up_time_before_set.where(up_time_before == start_i, 0)
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
+        initially_up = up_time_before.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
         down_time_before = until_start_down[
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
+        down_time_before += down_time_before_set.where(down_time_before == start_i, 0)
         down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
+        initially_down = down_time_before.astype(bool)
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From 3677c2cc2b1b6f44ef63654e42ebc9c10619df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:30 +0000
Subject: [PATCH 04/67] fix: non-cyclic storage was reset to its initial level
 in every investment period

The attribute cyclic_*_per_period only refers to cyclic storage, but with its
default (True) it also made non-cyclic storage start each investment period
at the initial level, although *_initial_per_period was False.
---
 pypsa/optimization/constraints.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 821c48d..96ff26f 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -870,9 +870,8 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_soc and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = soc.coords["period"]
-        per_period = (
-            assets.cyclic_state_of_charge_per_period.to_xarray()
-            | assets.state_of_charge_initial_per_period.to_xarray()
+        per_period = assets.state_of_charge_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.cyclic_state_of_charge_per_period.to_xarray()
         )
 
         # We calculate the previous soc per period while cycling within a period
@@ -946,9 +945,8 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_e and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = e.coords["period"]
-        per_period = (
-            assets.e_cyclic_per_period.to_xarray()
-            | assets.e_initial_per_period.to_xarray()
+        per_period = assets.e_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.e_cyclic_per_period.to_xarray()
         )
 
         # We calculate the previous e per period while cycling within a period
-- 
2.43.0


From c892d2cb626e9d3d2125b7e7512c5f4a2b4659a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 05/67] fix: ramp limits of committable units ignored time
 series, and limits of exactly 1

Time-varying ramp limits of committable components were dropped without
notice since only the static value was read. All ramp limits were dropped if
every one equals 1, although a component with a negative minimum output or a
start-up ramp limit is constrained by them.
---
 pypsa/optimization/constraints.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 96ff26f..158d5d6 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -413,8 +413,6 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
 
     if (ramp_limit_up.isnull().all() & ramp_limit_down.isnull().all()).all():
         return
-    if (ramp_limit_up.eq(1).all() & ramp_limit_down.eq(1).all()).all():
-        return
 
     # ---------------- Check if ramping is at start of n.snapshots --------------- #
 
@@ -522,9 +520,11 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     assets = n.static(c).reindex(com_i)
 
     # com up
-    if not assets.ramp_limit_up.isnull().all():
+    if not ramp_limit_up[com_i].isnull().all().all():
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
-        limit_up = assets.eval("ramp_limit_up * p_nom").to_xarray()
+        limit_up = DataArray(
+            (ramp_limit_up * assets.p_nom).reindex(active.index, columns=com_i)
+        )
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -539,17 +539,22 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
-            rhs.loc[sns[0]] += (limit_up - limit_start) * status_start
+            limit_up_start = limit_up.sel(snapshot=sns[0])
+            rhs.loc[sns[0]] += (limit_up_start - limit_start) * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_up.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit_up.notnull().reindex(
+            active.index, columns=com_i
+        )
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
-    if not assets.ramp_limit_down.isnull().all():
+    if not ramp_limit_down[com_i].isnull().all().all():
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
-        limit_down = assets.eval("ramp_limit_down * p_nom").to_xarray()
+        limit_down = DataArray(
+            (ramp_limit_down * assets.p_nom).reindex(active.index, columns=com_i)
+        )
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -566,7 +571,9 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_down.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit_down.notnull().reindex(
+            active.index, columns=com_i
+        )
 
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
-- 
2.43.0


From a8746595a0927e7d85a20c70c7d3911bdc6203b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:01 +0000
Subject: [PATCH 06/67] fix: linearised unit commitment cut off schedules
 feasible for the integer problem

The tightening for shut-down ramps had the wrong sign for the start-up term,
so that units with a down-ramp limit below the shut-down limit could not
start. The tightenings which bound the previous dispatch used the limits of
the current snapshot, which is invalid for time-varying p_min_pu/p_max_pu.
---
 pypsa/optimization/constraints.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 158d5d6..cfff7f1 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -294,6 +294,8 @@ def define_operational_constraints_for_committables(
         # parameters
         upper_p_ce = upper_p.loc[:, cost_equal]
         lower_p_ce = lower_p.loc[:, cost_equal]
+        upper_p_prev_ce = upper_p_ce.shift(snapshot=1)
+        lower_p_prev_ce = lower_p_ce.shift(snapshot=1)
         ramp_shut_down_ce = ramp_shut_down.loc[cost_equal]
         ramp_start_up_ce = ramp_start_up.loc[cost_equal]
         ramp_up_limit_ce = ramp_up_limit.loc[cost_equal]
@@ -302,7 +304,7 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce.shift(snapshot=1)
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
-            - (upper_p_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
+            - (upper_p_prev_ce - ramp_shut_down_ce) * (status_ce - start_up_ce)
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -332,9 +334,9 @@ def define_operational_constraints_for_committables(
         lhs = (
             p_ce
             - p_ce.shift(snapshot=1)
-            - (lower_p_ce + ramp_up_limit_ce) * status_ce
-            + lower_p_ce * status_ce.shift(snapshot=1)
-            + (lower_p_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
+            - (lower_p_prev_ce + ramp_up_limit_ce) * status_ce
+            + lower_p_prev_ce * status_ce.shift(snapshot=1)
+            + (lower_p_prev_ce + ramp_up_limit_ce - ramp_start_up_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
@@ -351,7 +353,7 @@ def define_operational_constraints_for_committables(
             - p_ce
             - ramp_shut_down_ce * status_ce.shift(snapshot=1)
             + (ramp_shut_down_ce - ramp_down_limit_ce) * status_ce
-            - (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
+            + (lower_p_ce + ramp_down_limit_ce - ramp_shut_down_ce) * start_up_ce
         )
         lhs = lhs.sel(snapshot=sns[1:])
         n.model.add_constraints(
-- 
2.43.0


From 70937e080781b02bbc60db3ce467e0ce4fdc36b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 07/67] fix: capital cost of inactive extendable assets was NaN
 in the objective

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..3896ec3 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -185,7 +185,7 @@ def define_objective(n: Network, sns: pd.Index) -> None:
             cost = active @ period_weighting * cost
         else:
             active = n.get_active_assets(c)[ext_i]
-            cost = cost[active]
+            cost = cost.where(active, 0)
 
         caps = m[f"{c}-{attr}"]
         objective.append((caps * cost).sum())
-- 
2.43.0


From 3fa968362e378d73d45db0ad550d22fff53dcda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 08/67] fix: initial level of inactive storage counted in
 primary energy and operational limits

---
 pypsa/optimization/global_constraints.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..c542f53 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -15,8 +15,8 @@ from linopy.expressions import merge
 from numpy import isnan
 from xarray import DataArray
 
+from pypsa.descriptors import get_activity_mask, nominal_attrs
 from pypsa.descriptors import get_switchable_as_dense as get_as_dense
-from pypsa.descriptors import nominal_attrs
 
 if TYPE_CHECKING:
     from pypsa import Network
@@ -291,6 +291,8 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
         # storage units
         cond = "carrier in @emissions.index and not cyclic_state_of_charge"
         sus = n.storage_units.query(cond)
+        active = get_activity_mask(n, "StorageUnit", sns[sns_sel], sus.index)
+        sus = sus[active.any()]
         if not sus.empty:
             em_pu = sus.carrier.map(emissions)
             sus_i = sus.index
@@ -301,6 +303,8 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier in @emissions.index and not e_cyclic")
+        active = get_activity_mask(n, "Store", sns[sns_sel], stores.index)
+        stores = stores[active.any()]
         if not stores.empty:
             em_pu = stores.carrier.map(emissions)
             e = m["Store-e"].loc[sns[sns_sel], stores.index]
@@ -361,6 +365,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             lhs.append(expr)
 
         sus = n.storage_units.query(cond)
+        sus = sus[get_activity_mask(n, "StorageUnit", snapshots, sus.index).any()]
         if not sus.empty:
             sus_i = sus.index
             soc = m["StorageUnit-state_of_charge"].loc[snapshots, sus_i]
@@ -370,6 +375,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier == @glc.carrier_attribute and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", snapshots, stores.index).any()]
         if not stores.empty:
             e = m["Store-e"].loc[snapshots, stores.index]
             e = e.ffill("snapshot").isel(snapshot=-1)
-- 
2.43.0


From 6aa62eb782ab868c01bcad51c1347bf9175b5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 09/67] fix: capacity expansion limits without investment
 period or bus were ignored or failed

---
 pypsa/optimization/global_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index c542f53..b6d292a 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
@@ -81,7 +81,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-            if bus is None:
+            if pd.isna(bus) or bus == "":
                 lhs = lhs_per_bus.sum(busdim)
             else:
                 lhs = lhs_per_bus.sel(**{busdim: str(bus)}, drop=True)
-- 
2.43.0


From 8eb0090b58c62d45bec6a440435db5751c8bbeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 10/67] fix: capacity and growth limits mixed up buses and
 carriers of different components

---
 pypsa/optimization/global_constraints.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index b6d292a..cf0a1d1 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -48,6 +48,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
         busdim = f"Bus-{carrier}-{period}"
+        buses = n.buses.index.rename(busdim)
         lhs_per_bus_list = []
 
         for c, attr in nominal_attrs.items():
@@ -71,7 +72,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
 
             bus = "bus0" if c in n.branch_components else "bus"
             busmap = static.loc[ext_i, bus].rename(busdim).to_xarray()
-            expr = m[var].loc[ext_i].groupby(busmap).sum()
+            expr = m[var].loc[ext_i].groupby(busmap).sum().reindex({busdim: buses})
             lhs_per_bus_list.append(expr)
 
         if not lhs_per_bus_list:
@@ -227,7 +228,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
         if (max_relative_growth.loc[carriers.unique()] > 0).any():
             expr = expr - expr.shift(periods=1) * max_relative_growth
 
-        lhs_list.append(expr)
+        lhs_list.append(expr.reindex({"Carrier": carrier_i}))
 
     if not lhs_list:
         return
-- 
2.43.0


From 7ff381d4fd74dc65bb154f517c086460343f76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:25 +0000
Subject: [PATCH 11/67] fix: growth limit counted retired assets as newly built
 in every later period

---
 pypsa/optimization/global_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index cf0a1d1..8cd1002 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -219,7 +219,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray(active & (active.cumsum() == 1))
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
-- 
2.43.0


From d3705d4ae40340d8faeaa98c0588613dbe827861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:59 +0000
Subject: [PATCH 12/67] fix: inactive expandable assets counted towards
 capacity and expansion limits

---
 pypsa/optimization/global_constraints.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 8cd1002..fe73f35 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -64,8 +64,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
                 .intersection(static.index[static.carrier == carrier])
                 .rename(dim)
             )
-            if period is not None:
-                ext_i = ext_i[n.get_active_assets(c, period)[ext_i]]
+            ext_i = ext_i[n.get_active_assets(c, period)[ext_i]]
 
             if ext_i.empty:
                 continue
@@ -157,8 +156,7 @@ def define_nominal_constraints_per_bus_carrier(n: Network, sns: pd.Index) -> Non
                 .intersection(static.index[static.carrier == carrier])
                 .rename(dim)
             )
-            if period is not None:
-                ext_i = ext_i[n.get_active_assets(c, period)[ext_i]]
+            ext_i = ext_i[n.get_active_assets(c, period)[ext_i]]
 
             if ext_i.empty:
                 continue
@@ -440,6 +438,8 @@ def define_transmission_volume_expansion_limit(n: Network, sns: Sequence) -> Non
                 ext_i = ext_i[
                     n.get_active_assets(c, sns.unique("period"))[ext_i]
                 ].rename(ext_i.name)
+            else:
+                ext_i = ext_i[n.get_active_assets(c)[ext_i]].rename(ext_i.name)
 
             length = n.static(c).length.reindex(ext_i)
             vars = m[f"{c}-{attr}"].loc[ext_i]
@@ -514,6 +514,7 @@ def define_transmission_expansion_cost_limit(n: Network, sns: pd.Index) -> None:
                 )
                 weights = active @ period_weighting
             else:
+                ext_i = ext_i[n.get_active_assets(c)[ext_i]].rename(ext_i.name)
                 weights = 1
 
             cost = n.static(c).capital_cost.reindex(ext_i) * weights
-- 
2.43.0


From ccc4cf5a4b591fe2f635f0e9f91dcc4e6611f426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:54 +0000
Subject: [PATCH 13/67] fix: stored losses of branches wiped other windows and
 skipped transformers

post_processing added the losses of lines to the whole time series, so
that branch flows outside the optimised snapshots and of inactive lines
became NaN (and 0 with the next solve); transformers with losses got
none at all.
---
 pypsa/optimization/optimize.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 3896ec3..90d38aa 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -469,11 +469,13 @@ def post_processing(n: Network) -> None:
     if len(n.loads):
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
-    # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    # losses of passive branches
+    for c in sorted(n.passive_branch_components):
+        if f"{c}-loss" not in n.model.variables:
+            continue
+        losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0)
+        for attr in ["p0", "p1"]:
+            n.dynamic(c)[attr].loc[sns, losses.columns] += losses / 2
 
     # recalculate injection
     ca = [
-- 
2.43.0


From 04b965aa9abbf3e14a2e5a700c00c33fb09a6939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 14/67] fix: optimisation reported consumption of inactive
 loads

post_processing wrote the demand of inactive loads to loads_t.p and the
injections of their buses, although the nodal balance leaves them out.
---
 pypsa/optimization/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 90d38aa..987a80a 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -467,7 +467,9 @@ def post_processing(n: Network) -> None:
 
     # load
     if len(n.loads):
-        set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
+        load = get_as_dense(n, "Load", "p_set", sns)
+        load.loc[:, ~n.loads.active] = 0
+        set_from_frame(n, "Load", "p", load)
 
     # losses of passive branches
     for c in sorted(n.passive_branch_components):
-- 
2.43.0


From 622b332f946cd386d6f8f345d934ac8ef4b26ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 15/67] fix: additional link ports of one network leaked into
 all others

The attributes of component types were shared by all networks. Adding a
link with a third bus to one network gave every network created later
that port, and earlier networks failed to add time-varying efficiencies
for it.
---
 pypsa/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..38ce00a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -7,6 +7,7 @@ import logging
 import os
 import warnings
 from collections.abc import Collection, Iterator, Sequence
+from dataclasses import replace
 from typing import TYPE_CHECKING, Any
 from weakref import ref
 
@@ -491,6 +492,8 @@ class Network:
         self.components = ComponentsStore()
         for c_name in components:
             ctype = get_component_type(c_name)
+            # Attributes for additional link ports are added per network
+            ctype = replace(ctype, defaults=ctype.defaults.copy())
 
             self.components[ctype.list_name] = Component(ctype=ctype, n=self)
 
-- 
2.43.0


From 7fc2b306f72cbb335bdd9980887c2cf2fe5145ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:35 +0000
Subject: [PATCH 16/67] fix: prices of an earlier solve were divided by the
 weightings again

If a later solve of the same snapshots yields no dual values (integer
problems), the stored marginal prices were divided by the objective
weightings once more.
---
 pypsa/optimization/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 987a80a..92e52e8 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -461,9 +461,10 @@ def post_processing(n: Network) -> None:
     else:
         weightings = n.snapshot_weightings.objective.loc[sns]
 
-    n.buses_t.marginal_price.loc[sns] = n.buses_t.marginal_price.loc[sns].divide(
-        weightings, axis=0
-    )
+    if any("dual" in constraint for _, constraint in n.model.constraints.items()):
+        n.buses_t.marginal_price.loc[sns] = n.buses_t.marginal_price.loc[sns].divide(
+            weightings, axis=0
+        )
 
     # load
     if len(n.loads):
-- 
2.43.0


From 5cd51260408a2f9a4a331e5b85146f6c0a3abd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:34 +0000
Subject: [PATCH 17/67] fix: statistics keep zero entries when drop_zero is
 False

drop_zero=False was treated like True because only None was checked.
---
 pypsa/statistics/expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..5e34508 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -257,7 +257,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         )
         if round_ is not None:
             df = df.round(round_)
-        if drop_zero_ is not None:
+        if drop_zero_:
             df = df[df != 0]
 
         return df
-- 
2.43.0


From dd30e078dcd0c37dbc44712b7b43bf5a4a667c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:34 +0000
Subject: [PATCH 18/67] fix: weight operational expenditure like the objective

opex used the generator/store energy weightings, so that it did not add up
to the objective when the weighting columns differ.
---
 pypsa/statistics/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5e34508..0e8bca9 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            # operational costs enter the objective with the objective weighting
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
-- 
2.43.0


From 6b0795d1c8820e5f476beb72e8c89dcc2c0c95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:02 +0000
Subject: [PATCH 19/67] fix: report operational expenditure of links

Dispatch of links is stored as p0; looking up p raised a KeyError that was
swallowed, so that links never had any operational expenditure.
---
 pypsa/statistics/expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 0e8bca9..481ef21 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1157,6 +1157,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
             ]:
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
+                    if c == "Link" and attr == "p":
+                        attr = "p0"  # the dispatch of links is stored at bus0
                     cost = n.get_switchable_as_dense(c, cost_type)
                     p = n.dynamic(c)[attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
-- 
2.43.0


From ea0fdbe3a86d945b4bec4ac89a629938391a4c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:18 +0000
Subject: [PATCH 20/67] fix: inactive assets have no curtailment

Assets which are switched off or outside their lifetime were reported as
fully curtailed wherever curtailment is calculated per snapshot or period.
---
 pypsa/statistics/expressions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 481ef21..d37e52f 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1843,10 +1843,17 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
 
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
-            p = (
+            potential = (
                 n.get_switchable_as_dense(c, "p_max_pu") * n.static(c).p_nom_opt
-                - n.dynamic(c).p
-            ).clip(lower=0)
+            )
+            # inactive assets have no power potential
+            if self.is_multi_indexed:
+                periods = n.investment_periods
+                active = {p: n.get_active_assets(c, p) for p in periods}
+                active = pd.concat(active, axis=1).T.reindex(n.snapshots, level=0)
+            else:
+                active = n.get_active_assets(c)
+            p = (potential * active - n.dynamic(c).p).clip(lower=0)
             weights = get_weightings(n, c)
             return self._aggregate_timeseries(p, weights, agg=aggregate_time)
 
-- 
2.43.0


From acc4504b8418558b183d390659a2e7318f72a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:59 +0000
Subject: [PATCH 21/67] fix: get_switchable_as_iter works with pandas 2
 (Series.append was removed)

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..67262d5 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -150,7 +150,7 @@ def get_switchable_as_iter(
 
     return (
         reindex_maybe(
-            static.loc[fixed_i, attr].append(dynamic[attr].loc[sn, varying_i])
+            pd.concat([static.loc[fixed_i, attr], dynamic[attr].loc[sn, varying_i]])
         )
         for sn in snapshots
     )
-- 
2.43.0


From 7785a79815a071cfdfda74db597f125125827a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 22/67] fix: renaming components other than buses keeps working
 and updates references

---
 pypsa/components/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..399c186 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -724,8 +724,10 @@ class Components(ComponentsData, ABC):
         if self.attached:
             for c in self.n_save.components.values():
                 col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
-                if cols and not c.static.empty:
+                cols = c.static.columns.intersection(
+                    [col_name, *(f"{col_name}{port}" for port in c.ports)]
+                )
+                if not cols.empty and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
 
-- 
2.43.0


From 1a2a196e38eb324de8b8fd31eb739b119084f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 23/67] fix: adding a series for an existing component without
 overwrite leaves it untouched

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 38ce00a..df55005 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1343,10 +1343,14 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = names.intersection(self.static(c.name).index)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            if not overwrite:
+                # Existing components are skipped, including their time series
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From 9677b18af98aac7fb654b3609adebc2dd8f0a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 24/67] fix: overwriting a component drops its previous time
 series

---
 pypsa/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..5b4687b 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1500,6 +1500,11 @@ def _import_components_from_df(
 
     dynamic = n.dynamic(cls_name)
 
+    if overwrite:
+        # Drop time series of the components which are overwritten
+        for k in dynamic:
+            dynamic[k] = dynamic[k].drop(columns=duplicated_components, errors="ignore")
+
     for k in non_static_attrs_in_df:
         # If reading in outputs, fill the outputs
         dynamic[k] = dynamic[k].reindex(
-- 
2.43.0


From 11917abc5cad472c9c086629b9267e236a9a5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 25/67] fix: custom time series of later additions are kept
 instead of dropped or shared

---
 pypsa/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 5b4687b..348bfe0 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1566,8 +1566,10 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+        if attr in dynamic:
+            kept = dynamic[attr].drop(columns=df.columns, errors="ignore")
+            df = pd.concat([kept, df], axis=1)
+        dynamic[attr] = df.copy()
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 51384c2943176f62e074d911012cce638f0f3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 26/67] fix: slicing a network keeps its investment period
 weightings

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index df55005..ab6fb2b 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1678,6 +1678,10 @@ class Network:
             setattr(n, attr, getattr(self, attr))
 
         n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        if not self.investment_period_weightings.empty:
+            n.investment_period_weightings = self.investment_period_weightings.reindex(
+                n.investment_periods
+            )
 
         return n
 
-- 
2.43.0


From 212116b0c77889ba2cd415d49ec0718b7c1a80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 27/67] fix: copying snapshots of some investment periods
 selects these periods by default

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index ab6fb2b..c3c3ce4 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1556,6 +1556,10 @@ class Network:
         # Copy time-varying data, if given
 
         if len(snapshots_) > 0:
+            # By default only copy the periods which are left in the snapshots
+            if investment_periods is None and isinstance(snapshots_, pd.MultiIndex):
+                investment_periods_ = snapshots_.unique("period")
+
             n.set_snapshots(snapshots_)
             # Apply time-varying data
             for component in self.iterate_components():
-- 
2.43.0


From be694e421378e319cf6703deb94724f00610bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 28/67] fix: additional link ports get their defaults for every
 link

---
 pypsa/descriptors.py | 2 +-
 pypsa/io.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 67262d5..dfc95c6 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -456,7 +456,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
 
diff --git a/pypsa/io.py b/pypsa/io.py
index 348bfe0..d1c87d4 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1414,14 +1414,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From ae767e5dce7cf89ee88aa9dc15bc1035e904ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 29/67] fix: dictionaries as attribute values are rejected
 before they are read as series

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index c3c3ce4..832c71c 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1245,6 +1245,13 @@ class Network:
             raise ValueError(msg)
 
         for k, v in kwargs.items():
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # If index/ columnes are passed (pd.DataFrame or pd.Series)
             # - cast names index to string and add suffix
             # - check if passed index/ columns align
@@ -1308,13 +1315,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From 9ffc37c35eb556b777706206ed4ec0b514434ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 30/67] fix: strict mode of the consistency check raises for
 unknown carriers

---
 pypsa/consistency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/consistency.py b/pypsa/consistency.py
index 35f5309..0c6093f 100644
--- a/pypsa/consistency.py
+++ b/pypsa/consistency.py
@@ -855,7 +855,7 @@ def consistency_check(
     for c in n.iterate_components():
         # Checks all components
         check_for_unknown_buses(n, c, "unknown_buses" in strict)
-        check_for_unknown_carriers(n, c, "unkown_carriers" in strict)
+        check_for_unknown_carriers(n, c, "unknown_carriers" in strict)
         check_time_series(n, c, "time_series" in strict)
         check_static_power_attributes(n, c, "static_power_attrs" in strict)
         check_time_series_power_attributes(n, c, "time_series_power_attrs" in strict)
-- 
2.43.0


From 35146c4553e5b7b91e2a7d91fc32699178f14b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 31/67] fix: refusing empty snapshots leaves the network
 unchanged

---
 pypsa/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 832c71c..3a422fe 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -733,6 +733,9 @@ class Network:
             )
             raise ValueError(msg)
 
+        if len(snapshots) == 0:
+            raise ValueError("Snapshots must not be empty.")
+
         if isinstance(snapshots, pd.MultiIndex):
             if snapshots.nlevels != 2:
                 msg = "Maximally two levels of MultiIndex supported"
@@ -743,9 +746,6 @@ class Network:
         else:
             self._snapshots = pd.Index(snapshots, name="snapshot")
 
-        if len(self._snapshots) == 0:
-            raise ValueError("Snapshots must not be empty.")
-
         self.snapshot_weightings = self.snapshot_weightings.reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
-- 
2.43.0


From 323c9dd22d6f541989b6dd6b13db0c9f259954c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 32/67] fix: partial copies do not share the meta data with
 their source

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 3a422fe..76e6d18 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1592,7 +1592,7 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
-- 
2.43.0


From 1edd56b19618c822f85028f449f2a74ef1c4e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 33/67] fix: slice snapshots by label like the time series and
 weightings

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 76e6d18..8d96101 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1663,7 +1663,7 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        n.set_snapshots(self.snapshot_weightings.loc[time_i].index)
         for c in self.all_components:
             i = n.static(c).index
             try:
-- 
2.43.0


From 9eca67a20c59edc21b6a273cc7aa80dc9a66f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 34/67] fix: merging networks without their buses leaves the
 buses out

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index d1c87d4..867d225 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1637,7 +1637,7 @@ def merge(
         to_skip.update(components_to_skip)
     to_iterate = other.all_components - to_skip
     # ensure buses are merged first
-    to_iterate_list = ["Bus"] + sorted(to_iterate - {"Bus"})
+    to_iterate_list = sorted(to_iterate, key=lambda c: (c != "Bus", c))
     for c in other.iterate_components(to_iterate_list):
         if not c.static.index.intersection(n.static(c.name).index).empty:
             msg = f"Component {c.name} has overlapping indices, cannot merge networks."
-- 
2.43.0


From a42303c3b61e92e92bea076c89bb281f64441342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 35/67] fix: adding two networks returns the merged network

---
 pypsa/networks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 8d96101..db5a108 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -368,9 +368,9 @@ class Network:
 
         return header + content
 
-    def __add__(self, other: Network) -> None:
+    def __add__(self, other: Network) -> Network:
         """Merge all components of two networks."""
-        self.merge(other)
+        return self.merge(other)
 
     def __eq__(self, other: Any) -> bool:
         """
-- 
2.43.0


From 2db7540c6ea64d6e40d31f6f9cf4a963b5b626c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 36/67] fix: snapshots which are no times keep their labels
 when read from csv or excel

---
 pypsa/io.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 867d225..4f17aa3 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -72,6 +72,20 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
 TImpExper = TypeVar("TImpExper", bound="ImpExper")
 
 
+def _parse_times(labels: pd.Series) -> pd.Series:
+    """
+    Parse labels of snapshots as times, if they are times.
+
+    Numbers and other text (like the default snapshot "now") are kept.
+    """
+    if pd.api.types.is_numeric_dtype(labels) or labels.isin(["now", "today"]).any():
+        return labels
+    try:
+        return pd.to_datetime(labels)
+    except ValueError:
+        return labels
+
+
 class ImpExper:
     ds: Any = None
 
@@ -181,9 +195,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_times(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_times(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -350,9 +364,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_times(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_times(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
-- 
2.43.0


From 9148f665bbbd446988deb0312022630052ee8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 37/67] fix: names that look like numbers are kept when read
 from csv or excel

---
 pypsa/io.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 4f17aa3..228918a 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -86,6 +86,12 @@ def _parse_times(labels: pd.Series) -> pd.Series:
         return labels
 
 
+# Columns holding names, which may look like numbers (e.g. "01")
+_NAME_DTYPES = dict.fromkeys(
+    ["name", "bus", *(f"bus{i}" for i in range(100)), "carrier", "type"], str
+)
+
+
 class ImpExper:
     ds: Any = None
 
@@ -212,7 +218,11 @@ class ImporterCSV(Importer):
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
         return (
             pd.read_csv(
-                fn, index_col=0, encoding=self.encoding, quotechar=self.quotechar
+                fn,
+                index_col=0,
+                encoding=self.encoding,
+                quotechar=self.quotechar,
+                dtype=_NAME_DTYPES,
             )
             if fn.is_file()
             else None
@@ -313,7 +323,9 @@ class ImporterExcel(Importer):
             raise FileNotFoundError(msg)
         self.engine = engine
 
-        reader = partial(pd.read_excel, sheet_name=None, engine=self.engine)
+        reader = partial(
+            pd.read_excel, sheet_name=None, engine=self.engine, dtype=_NAME_DTYPES
+        )
         if validators.url(str(path)):
             self.sheets = _retrieve_from_url(str(path), reader)
         else:
-- 
2.43.0


From a5627d133acd13bd9695fca38f61ec611e513e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 38/67] fix: components with default values only keep their
 names in excel files

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 228918a..c315ffc 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -468,7 +468,8 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
-        df.to_excel(self.writer, sheet_name=list_name)
+        # Write names as a column, the header is lost for tables with an index only
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From cf5b987e390005ef54944de92d6e9802bbf41026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 39/67] fix: exporting to a csv folder removes files of
 components which are gone

---
 pypsa/io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index c315ffc..42fa6b6 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -293,10 +293,14 @@ class ExporterCSV(Exporter):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
     def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+        fns = [
+            *self.csv_folder_name.glob(list_name + ".csv"),
+            *self.csv_folder_name.glob(list_name + "-*.csv"),
+        ]
+        if fns:
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.warning(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
-- 
2.43.0


From 3089772e7a28c03a7ecdabfe1c0eda776d9f49d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 40/67] fix: export series at their default which override
 another static value

---
 pypsa/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 42fa6b6..e937e84 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -866,7 +866,12 @@ def _export_to_exporter(
                         (~pd.isnull(dynamic[attr])).any()
                     ]
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    differs = (dynamic[attr] != default).any()
+                    if attr in n.static(component):
+                        # The series may override a static value other than the default
+                        overrides = n.static(component)[attr].ne(default)
+                        differs |= overrides.reindex(differs.index, fill_value=False)
+                    col_export = dynamic[attr].columns[differs]
 
             if len(col_export) > 0:
                 static = dynamic[attr].reset_index()[col_export]
-- 
2.43.0


From da578c06227bef66cc10e09627f1e7ccb73f0453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 41/67] fix: only snapshots given as text are parsed as times
 on import

---
 pypsa/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index e937e84..6dd9c31 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -78,7 +78,9 @@ def _parse_times(labels: pd.Series) -> pd.Series:
 
     Numbers and other text (like the default snapshot "now") are kept.
     """
-    if pd.api.types.is_numeric_dtype(labels) or labels.isin(["now", "today"]).any():
+    if not pd.api.types.is_object_dtype(labels):
+        return labels
+    if labels.isin(["now", "today"]).any():
         return labels
     try:
         return pd.to_datetime(labels)
-- 
2.43.0


From 5b35d883b31e89b9fc254dbe1c825a26f7abc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 42/67] fix: inactive links and shunt impedances take no part
 in the power flow

---
 pypsa/pf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 90d6a24..0436f1e 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -151,6 +151,7 @@ def _network_prepare_and_run_pf(
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns)
+        p_set.loc[:, ~n.links.active] = 0.0
         n.links_t.p0.loc[sns] = p_set.loc[sns]
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
@@ -755,7 +756,7 @@ def sub_network_pf(
     ].imag
 
     # set shunt impedance powers
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     if len(shunt_impedances_i):
         # add voltages
         shunt_impedances_v_mag_pu = v_mag_pu[
@@ -1253,13 +1254,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunt_impedances = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.b_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.g_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
@@ -1464,7 +1466,7 @@ def sub_network_lpf(
     branches_i = sub_network.branches_i(active_only=True)
 
     # allow all shunt impedances to dispatch as set
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = n.shunt_impedances.g_pu.loc[
         shunt_impedances_i
     ].values
-- 
2.43.0


From 899156195749bd37bfa75233b79f27e53eb897e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 43/67] fix: inactive generators neither control buses nor take
 up slack power

---
 pypsa/pf.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 0436f1e..db522d4 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -371,7 +371,7 @@ def sub_network_pf_singlebus(
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
@@ -615,7 +615,10 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            active_generators_i = n.generators.query("active").index
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, active_generators_i
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -635,7 +638,8 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                n.generators.query("active")
+                .groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -774,7 +778,7 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
@@ -1031,7 +1035,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     """
     Find the slack bus in a connected sub-network.
     """
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1080,7 +1084,7 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
 
     find_slack_bus(sub_network)
 
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
-- 
2.43.0


From b50486b537539e5c80bdc424f290b2aaa9dcf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:17 +0000
Subject: [PATCH 44/67] fix: power flow of networks without generators to take
 up the slack

---
 pypsa/pf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index db522d4..ba5003c 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -406,14 +406,15 @@ def sub_network_pf_singlebus(
                     -n.buses_t.p.loc[sns, bus], axis=0
                 )
             )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
@@ -807,15 +808,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         )
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        )
 
     n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
-- 
2.43.0


From 2256b7c3e52f0f7e495a311b6a9862d8a9b1b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 45/67] fix: distribute slack power among the generators of a
 bus as requested

---
 pypsa/pf.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ba5003c..f7d80be 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -40,6 +40,11 @@ def normed(s: pd.Series) -> pd.Series:
     return s / s.sum()
 
 
+def _get_p_nom_or_equal(p_nom: pd.Series) -> pd.Series:
+    # distribute evenly if no p_nom given
+    return p_nom if (p_nom != 0).any() else pd.Series(1.0, p_nom.index)
+
+
 def real(X: pd.Series) -> pd.Series:
     return np.real(X.to_numpy())
 
@@ -372,12 +377,18 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().query("active").groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, pd.Series):
+                if slack_weights.index.isin(sub_network.generators_i()).all():
+                    bus_generator_weights = slack_weights.reindex(group.index)
+                else:
+                    bus_generator_weights = _get_p_nom_or_equal(group.p_nom)
+                bus_generator_shares = bus_generator_weights.pipe(normed).fillna(0)
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
                 bus_generator_shares = (
-                    n.generators[slack_weights].loc[group.index].pipe(normed).fillna(0)
+                    _get_p_nom_or_equal(group[slack_weights]).pipe(normed).fillna(0)
                 )
             elif slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
@@ -400,12 +411,15 @@ def sub_network_pf_singlebus(
                     .fillna(0)
                 )
             else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
-            n.generators_t.p.loc[sns, group.index] += (
-                bus_generator_shares.multiply(
-                    -n.buses_t.p.loc[sns, bus], axis=0
-                )
-            )  # fmt: skip
+                msg = f"Invalid slack weights! {slack_weights} is not supported."
+                raise ValueError(msg)
+
+            slack_power = -n.buses_t.p.loc[sns, bus]
+            if isinstance(bus_generator_shares, pd.DataFrame):
+                slack_power = bus_generator_shares.multiply(slack_power, axis=0)
+            else:
+                slack_power = slack_power.apply(lambda row: row * bus_generator_shares)
+            n.generators_t.p.loc[sns, group.index] += slack_power
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
@@ -651,7 +665,7 @@ def sub_network_pf(
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
                 slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -795,13 +809,11 @@ def sub_network_pf(
             else:
                 if generator_slack_weights_b:
                     bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
+                        slack_weights.reindex(group.index).pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
-                    # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
+                    attr = slack_weights if isinstance(slack_weights, str) else "p_nom"
+                    bus_generators_p_nom = _get_p_nom_or_equal(group[attr])
                     bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
-- 
2.43.0


From ad3efadfe37a4063dbd076dd0f4a535cf27760ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 46/67] fix: outages leave the flows of other sub-networks as
 they are

---
 pypsa/contingency.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..ff2a20e 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -126,8 +126,12 @@ def network_lpf_contingency(
         sub_network = n.sub_networks.obj[passive_branches.sub_network[branch]]
 
         branch_i = sub_network._branches.index.get_loc(branch)
-        p0_new = p0_base + pd.Series(
-            sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
+        p0_new = p0_base.add(
+            pd.Series(
+                sub_network.BODF[:, branch_i] * p0_base[branch],
+                sub_network._branches.index,
+            ),
+            fill_value=0.0,
         )
         p0_new.name = branch
 
-- 
2.43.0


From e222ffd109903916f3e3b16168d6ae1ac201fc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 47/67] fix: linear contingency analysis with isolated buses or
 inactive branches

---
 pypsa/contingency.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index ff2a20e..7048e45 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -107,7 +107,7 @@ def network_lpf_contingency(
     passive_branches = n.passive_branches()
 
     if branch_outages is None:
-        branch_outages = passive_branches.index
+        branch_outages = passive_branches.query("active").index
 
     p0_base = pd.concat(
         {c: n.dynamic(c).p0.loc[snapshot] for c in n.passive_branch_components}
@@ -115,8 +115,9 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        sub_network._branches = sub_network.branches().query("active")
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
-- 
2.43.0


From 6cc0871b5dd12b1d1d11f2617e56c4f76ffeb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 48/67] fix: linear contingency analysis takes the first
 snapshot by default

---
 pypsa/contingency.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 7048e45..d25ea1b 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -92,7 +92,9 @@ def network_lpf_contingency(
     if snapshots is None:
         snapshots = n.snapshots
 
-    if isinstance(snapshots, Sequence):
+    if isinstance(snapshots, Sequence | pd.Index) and not isinstance(
+        snapshots, str | tuple
+    ):
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-- 
2.43.0


From 5b8d05d145766d787fb47e7ee1280d3e9468d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 49/67] fix: inactive components do not keep results of earlier
 power flows

---
 pypsa/pf.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index f7d80be..7fced93 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -54,7 +54,9 @@ def imag(X: pd.Series) -> pd.Series:
 
 
 @deprecated_common_kwargs
-def _allocate_pf_outputs(n: Network, linear: bool = False) -> None:
+def _allocate_pf_outputs(
+    n: Network, linear: bool = False, snapshots: Sequence | None = None
+) -> None:
     to_allocate = {
         "Generator": ["p"],
         "Load": ["p"],
@@ -76,6 +78,14 @@ def _allocate_pf_outputs(n: Network, linear: bool = False) -> None:
 
     allocate_series_dataframes(n, to_allocate)
 
+    # inactive components do not keep results of earlier power flows
+    sns = as_index(n, snapshots, "snapshots")
+    for component, attrs in to_allocate.items():
+        if "active" in n.static(component):
+            inactive_i = n.static(component).query("~active").index
+            for attr in attrs:
+                n.dynamic(component)[attr].loc[sns, inactive_i] = 0.0
+
 
 def _calculate_controllable_nodal_power_balance(
     sub_network: SubNetwork,
@@ -149,7 +159,7 @@ def _network_prepare_and_run_pf(
     if not skip_pre:
         n.determine_network_topology()
         calculate_dependent_values(n)
-        _allocate_pf_outputs(n, linear)
+        _allocate_pf_outputs(n, linear, snapshots)
 
     sns = as_index(n, snapshots, "snapshots")
 
@@ -360,7 +370,7 @@ def sub_network_pf_singlebus(
 
     if not skip_pre:
         find_bus_controls(sub_network)
-        _allocate_pf_outputs(n, linear=False)
+        _allocate_pf_outputs(n, linear=False, snapshots=sns)
 
     if isinstance(slack_weights, dict):
         slack_weights = pd.Series(slack_weights)
@@ -510,7 +520,7 @@ def sub_network_pf(
     if not skip_pre:
         calculate_dependent_values(n)
         find_bus_controls(sub_network)
-        _allocate_pf_outputs(n, linear=False)
+        _allocate_pf_outputs(n, linear=False, snapshots=sns)
 
     # get indices for the components on this sub-network
     branches_i = sub_network.branches_i(active_only=True)
@@ -1477,7 +1487,7 @@ def sub_network_lpf(
     if not skip_pre:
         calculate_dependent_values(n)
         find_bus_controls(sub_network)
-        _allocate_pf_outputs(n, linear=True)
+        _allocate_pf_outputs(n, linear=True, snapshots=sns)
 
     # get indices for the components on this sub-network
     buses_o = sub_network.buses_o
-- 
2.43.0


From 9abb3dd726bb831e330afeb8339c103d24e699c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 50/67] fix: power flow with all branches of one type inactive

---
 pypsa/pf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 7fced93..e347a25 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -764,6 +764,8 @@ def sub_network_pf(
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
     for c in sub_network.iterate_components(n.passive_branch_components):
+        if c.name not in s0:
+            continue  # none of them is active
         s0t = s0.loc[:, c.name]
         s1t = s1.loc[:, c.name]
         n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
@@ -1542,6 +1544,8 @@ def sub_network_lpf(
         )
 
         for c in sub_network.iterate_components(n.passive_branch_components):
+            if c.name not in flows:
+                continue  # none of them is active
             f = flows.loc[:, c.name]
             n.dynamic(c.name).p0.loc[sns, f.columns] = f
             n.dynamic(c.name).p1.loc[sns, f.columns] = -f
-- 
2.43.0


From 79abf26215383c296963170ec0425b1a29eb477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 51/67] fix: slack power is allocated to generators with regard
 to their sign

---
 pypsa/pf.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index e347a25..17c07a4 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -429,15 +429,17 @@ def sub_network_pf_singlebus(
                 slack_power = bus_generator_shares.multiply(slack_power, axis=0)
             else:
                 slack_power = slack_power.apply(lambda row: row * bus_generator_shares)
-            n.generators_t.p.loc[sns, group.index] += slack_power
+            n.generators_t.p.loc[sns, group.index] += slack_power / group.sign
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
     if sub_network.slack_generator is not None:
         n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.q.loc[sns, sub_network.slack_bus]
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
@@ -817,6 +819,7 @@ def sub_network_pf(
                     bus_generator_shares.multiply(
                         distributed_slack_power.loc[sns, bus], axis=0
                     )
+                    / group.sign
                 )  # fmt: skip
             else:
                 if generator_slack_weights_b:
@@ -831,21 +834,26 @@ def sub_network_pf(
                     distributed_slack_power.loc[
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
+                    / group.sign
                 )  # fmt: skip
     elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
-        )
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
     # set the Q of the slack and PV generators
     if sub_network.slack_generator is not None:
         n.generators_t.q.loc[sns, sub_network.slack_generator] += (
             n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-        )
+        ) / n.generators.at[sub_network.slack_generator, "sign"]
 
-    n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
-        n.buses_t.q.loc[sns, sub_network.pvs]
-        - ss[:, buses_indexer(sub_network.pvs)].imag
+    pv_generators = n.buses.loc[sub_network.pvs, "generator"]
+    n.generators_t.q.loc[sns, pv_generators] += (
+        np.asarray(
+            n.buses_t.q.loc[sns, sub_network.pvs]
+            - ss[:, buses_indexer(sub_network.pvs)].imag
+        )
+        / n.generators.loc[pv_generators, "sign"].values
     )
 
     return iters, diffs, convs
@@ -1568,6 +1576,7 @@ def sub_network_lpf(
     if sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             slack_adjustment
+            / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
 
-- 
2.43.0


From 88f96661c75a5c8b2fdbd3707fca309be143f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 52/67] fix: capacities of links are not counted at ports they
 do not have

---
 pypsa/statistics/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/statistics/abstract.py b/pypsa/statistics/abstract.py
index 863e78e..0bf6935 100644
--- a/pypsa/statistics/abstract.py
+++ b/pypsa/statistics/abstract.py
@@ -329,11 +329,12 @@ class AbstractStatisticsAccessor(ABC):
         obj: Any,
     ) -> Any:
         """Filter for components which are connected to bus with `bus_carrier`."""
-        if bus_carrier is None:
-            return obj
-
         idx = self._get_component_index(obj, c)
         ports = n.static(c).loc[idx, f"bus{port}"]
+        if bus_carrier is None:
+            # links do not take part at ports they do not have
+            return obj.loc[ports.index[ports != ""]] if (ports == "").any() else obj
+
         port_carriers = ports.map(n.buses.carrier)
         if isinstance(bus_carrier, str):
             if bus_carrier in n.buses.carrier.unique():
-- 
2.43.0


From 6cb756134e58d059b2e80aab918d1ef045dbb51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 53/67] fix: incidence matrix of networks without branches

---
 pypsa/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index 2bc6681..e8cf46c 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -214,6 +214,9 @@ def incidence_matrix(
         no_branches += len(c.static.loc[sel])
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
+    if no_branches == 0:
+        return sp.sparse.csr_matrix((no_buses, 0))
+
     bus0_inds = np.concatenate(bus0_inds)
     bus1_inds = np.concatenate(bus1_inds)
 
-- 
2.43.0


From 775ff21a0945fe1a524fcc44bdbc683235880d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 54/67] fix: shunt impedances at single buses draw power in the
 non-linear power flow

---
 pypsa/pf.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 17c07a4..32bc858 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -385,6 +385,23 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
+    # set shunt impedance powers, which the slack has to cover as well
+    bus_p = pd.Series(0.0, sns)
+    bus_q = pd.Series(0.0, sns)
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
+    if len(shunt_impedances_i):
+        v_mag_pu_squared = n.buses_t.v_mag_pu.loc[sns, sub_network.slack_bus] ** 2
+        for attr, attr_pu in [("p", "g_pu"), ("q", "b_pu")]:
+            for shunt_impedance in shunt_impedances_i:
+                n.shunt_impedances_t[attr].loc[sns, shunt_impedance] = (
+                    v_mag_pu_squared
+                    * n.shunt_impedances.at[shunt_impedance, attr_pu]
+                )
+        bus_p = n.shunt_impedances_t.p.loc[sns, shunt_impedances_i].sum(axis=1)
+        bus_q = -n.shunt_impedances_t.q.loc[sns, shunt_impedances_i].sum(axis=1)
+        n.buses_t.p.loc[sns, sub_network.slack_bus] -= bus_p
+        n.buses_t.q.loc[sns, sub_network.slack_bus] -= bus_q
+
     if distribute_slack:
         for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, pd.Series):
@@ -442,8 +459,8 @@ def sub_network_pf_singlebus(
             / n.generators.at[sub_network.slack_generator, "sign"]
         )  # fmt: skip
 
-    n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
-    n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
+    n.buses_t.p.loc[sns, sub_network.slack_bus] = bus_p
+    n.buses_t.q.loc[sns, sub_network.slack_bus] = bus_q
 
     return 0, 0.0, True  # dummy substitute for newton raphson output
 
-- 
2.43.0


From 035c21bfe6918d9d631988d4ad750152387cb0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 55/67] fix: clustering maps all ports of links

---
 pypsa/clustering/spatial.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index c5a35b2..03a4cb0 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -18,6 +18,7 @@ from packaging.version import Version, parse
 from pandas import Series
 
 from pypsa import io
+from pypsa.descriptors import additional_linkports
 from pypsa.geo import haversine_pts
 
 if TYPE_CHECKING:
@@ -564,11 +565,19 @@ def get_clustering_from_busmap(
                 if not df.empty:
                     io._import_series_from_df(clustered, df, c.name, attr)
 
-    new_links = (
-        n.links.assign(bus0=n.links.bus0.map(busmap), bus1=n.links.bus1.map(busmap))
-        .dropna(subset=["bus0", "bus1"])
-        .loc[lambda df: df.bus0 != df.bus1]
-    )
+    ports = ["bus0", "bus1"] + [f"bus{i}" for i in additional_linkports(n)]
+    new_links = n.links.copy()
+    for port in ports:
+        connected = n.links[port].replace("", np.nan).notnull()
+        new_links[port] = n.links[port].map(busmap).where(connected, "")
+    new_links = new_links.dropna(subset=ports)
+    # drop links of which all ports are in the same cluster
+    within_cluster = pd.Series(True, new_links.index)
+    for port in ports[1:]:
+        within_cluster &= new_links[port].isin([""]) | (
+            new_links[port] == new_links["bus0"]
+        )
+    new_links = new_links[~within_cluster]
 
     new_links["length"] = np.where(
         new_links.length.notnull() & (new_links.length > 0),
@@ -586,6 +595,7 @@ def get_clustering_from_busmap(
 
     if with_time:
         for attr, df in n.links_t.items():
+            df = df[df.columns.intersection(new_links.index)]
             if not df.empty:
                 io._import_series_from_df(clustered, df, "Link", attr)
 
-- 
2.43.0


From d2c4b782137f9ddc747d7fe8cc3ac9c0b29816bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 56/67] fix: clustered networks have their own global
 constraints

---
 pypsa/clustering/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 03a4cb0..3916ffa 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -504,7 +504,7 @@ def get_clustering_from_busmap(
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-    clustered.global_constraints = n.global_constraints
+    clustered.global_constraints = n.global_constraints.copy()
 
     if with_time:
         clustered.set_snapshots(n.snapshots)
-- 
2.43.0


From 6843148dc15d7f84a1b3176cd48d877b4ccae2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 57/67] fix: clustered networks keep the line types of their
 lines

---
 pypsa/clustering/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 3916ffa..8f5503a 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -501,6 +501,8 @@ def get_clustering_from_busmap(
     clustered = n.__class__()
 
     clustered.add("Bus", buses.index, **buses)
+    line_types = n.line_types.drop(clustered.line_types.index, errors="ignore")
+    clustered.add("LineType", line_types.index, **line_types)
     clustered.add("Line", lines.index, **lines)
 
     # Carry forward global constraints to clustered n.
-- 
2.43.0


From 82fda88b47696adda4767077b9c99af68ed4aeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 58/67] fix: clustering adds up initial energies and energy
 limits

---
 pypsa/clustering/spatial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/clustering/spatial.py b/pypsa/clustering/spatial.py
index 8f5503a..2df0d74 100644
--- a/pypsa/clustering/spatial.py
+++ b/pypsa/clustering/spatial.py
@@ -53,6 +53,11 @@ DEFAULT_ONE_PORT_STRATEGIES = dict(
     efficiency="capacity_weighted_average",
     max_hours="capacity_weighted_average",
     inflow="sum",
+    e_initial="sum",
+    state_of_charge_initial="sum",
+    state_of_charge_set=lambda x: x.sum(skipna=False),
+    e_sum_min=pd.Series.sum,
+    e_sum_max=pd.Series.sum,
 )
 
 DEFAULT_BUS_STRATEGIES = dict(
-- 
2.43.0


From be36e752fd3ea4c5257c1cb9ea57a642b0fcfba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 59/67] fix: security-constrained optimisation accepts outages
 as MultiIndex

---
 pypsa/optimization/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..b4fca14 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -394,7 +394,8 @@ def optimize_security_constrained(
     if branch_outages is None:
         branch_outages = all_passive_branches
     elif isinstance(branch_outages, (list | pd.Index)):
-        branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
+        if not isinstance(branch_outages, pd.MultiIndex):
+            branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
             raise ValueError(
-- 
2.43.0


From ed35fb010eff05688b40efae3f0f8704ab610875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 60/67] fix: security-constrained optimisation with inactive
 branches

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index b4fca14..ff834e2 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -417,7 +417,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 374fe986260c7603b762438e15291d344441b557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 61/67] fix: weights for some components in near-optimal
 exploration

---
 pypsa/optimization/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index ff834e2..60e28e8 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -623,12 +623,14 @@ def optimize_mga(
             if isinstance(coeffs, dict):
                 coeffs = pd.Series(coeffs)
             if attr == nominal_attrs[c] and isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(n.get_extendable_i(c))
+                coeffs = coeffs.reindex(n.get_extendable_i(c), fill_value=0)
                 coeffs.index.name = ""
             elif isinstance(coeffs, pd.Series):
-                coeffs = coeffs.reindex(columns=n.static(c).index)
+                coeffs = coeffs.reindex(n.static(c).index, fill_value=0)
             elif isinstance(coeffs, pd.DataFrame):
-                coeffs = coeffs.reindex(columns=n.static(c).index, index=snapshots)
+                coeffs = coeffs.reindex(
+                    columns=n.static(c).index, index=snapshots, fill_value=0
+                )
             objective.append(m[f"{c}-{attr}"] * coeffs * sense)
 
     m.objective = merge(objective)
-- 
2.43.0


From 1347350b241d071e56f71d8b7d69b870121ebfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:24 +0000
Subject: [PATCH 62/67] fix: near-optimal exploration with weights for several
 variables

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 60e28e8..9044e77 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -631,7 +631,7 @@ def optimize_mga(
                 coeffs = coeffs.reindex(
                     columns=n.static(c).index, index=snapshots, fill_value=0
                 )
-            objective.append(m[f"{c}-{attr}"] * coeffs * sense)
+            objective.append((m[f"{c}-{attr}"] * coeffs * sense).sum())
 
     m.objective = merge(objective)
 
-- 
2.43.0


From e7d838343212962f9f50b5615090c399d4ea8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 63/67] fix: first iteration of transmission expansion scales
 impedances from s_nom

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 9044e77..a9b0a2c 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -285,7 +285,7 @@ def optimize_transmission_expansion_iteratively(
             )
             break
 
-        s_nom_prev = n.lines.s_nom_opt.copy() if iteration else n.lines.s_nom.copy()
+        s_nom_prev = n.lines.s_nom_opt.copy() if iteration > 1 else n.lines.s_nom.copy()
         status, termination_condition = n.optimize(snapshots, **kwargs)  # type: ignore
         if status != "ok":
             msg = (
-- 
2.43.0


From 72939fa35a00a3dfa70b4a16397c5043b12da676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 64/67] fix: discretisation keeps full units that still fit
 below the maximum

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index a9b0a2c..151b5ab 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -114,7 +114,7 @@ def discretized_capacity(
         return block_capacity
 
     else:
-        if (nom_max - nom_opt) < unit_size:
+        if nom_opt // unit_size == nom_max // unit_size:
             if (
                 fractional_last_unit_size
                 and ((nom_opt % unit_size) / (nom_max % unit_size)) >= threshold
-- 
2.43.0


From 96021c8392db85a3f24cf04f0b9d746774c77363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 65/67] fix: discretisation leaves branches of fixed capacity
 as they are

---
 pypsa/optimization/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 151b5ab..cfbf254 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -242,8 +242,8 @@ def optimize_transmission_expansion_iteratively(
         line_threshold = line_threshold or 0.3
         link_threshold = link_threshold or {}
 
-        if line_unit_size:
-            n.lines["s_nom"] = n.lines.apply(
+        if line_unit_size and len(ext_i):
+            n.lines.loc[ext_i, "s_nom"] = n.lines.loc[ext_i].apply(
                 lambda row: discretized_capacity(
                     nom_opt=row["s_nom_opt"],
                     nom_max=row["s_nom_max"],
@@ -256,7 +256,9 @@ def optimize_transmission_expansion_iteratively(
 
         if link_unit_size:
             for carrier in link_unit_size.keys() & n.links.carrier.unique():
-                idx = n.links.carrier == carrier
+                idx = ext_links_to_fix_b & (n.links.carrier == carrier)
+                if not idx.any():
+                    continue
                 n.links.loc[idx, "p_nom"] = n.links.loc[idx].apply(
                     lambda row: discretized_capacity(
                         nom_opt=row["p_nom_opt"],
-- 
2.43.0


From aedc83605aadfb5b970661026e72806f56761db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 66/67] fix: transmission expansion runs the minimal number of
 iterations

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index cfbf254..c02caf5 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -279,7 +279,7 @@ def optimize_transmission_expansion_iteratively(
 
     iteration = 1
     diff = msq_threshold
-    while diff >= msq_threshold or iteration < min_iterations:
+    while diff >= msq_threshold or iteration <= min_iterations:
         if iteration > max_iterations:
             logger.info(
                 f"Iteration {iteration} beyond max_iterations "
-- 
2.43.0


From 83aac21d6b9df49cb858bb7196e5741eb86da9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 67/67] fix: transmission expansion leaves inactive lines as
 they are

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c02caf5..85fac5a 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -185,7 +185,7 @@ def optimize_transmission_expansion_iteratively(
         Keyword arguments of the `n.optimize` function which runs at each iteration
     """
     n.lines["carrier"] = n.lines.bus0.map(n.buses.carrier)
-    ext_i = n.get_extendable_i("Line").copy()
+    ext_i = n.get_extendable_i("Line").intersection(n.lines.query("active").index)
     typed_i = n.lines.query('type != ""').index
     ext_untyped_i = ext_i.difference(typed_i)
     ext_typed_i = ext_i.intersection(typed_i)
-- 
2.43.0

