From dfd6b9fd6c668f168035fddd50a13030e5f5a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:34 +0000
Subject: [PATCH 01/38] fix: exchange endpoint species, not raw codes, when an
 event is applied

Occupation values are per-site state indices, so the mobile ion and the
vacancy may have different codes on the two endpoints of a hop. Swapping the
raw values then creates a state that is not the exchanged species.
---
 kmcpy/event/__init__.py     |  2 ++
 kmcpy/event/hop.py          | 27 ++++++++++++++++++++++++++-
 kmcpy/models/site_energy.py | 19 +++++++++++++++----
 kmcpy/simulator/state.py    |  8 ++++++--
 4 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/kmcpy/event/__init__.py b/kmcpy/event/__init__.py
index 92a488a..b40f275 100644
--- a/kmcpy/event/__init__.py
+++ b/kmcpy/event/__init__.py
@@ -10,6 +10,7 @@ from .hop import (
     HopStateLookup,
     INVALID_STATE,
     endpoint_direction_from_codes,
+    endpoint_states_after_hop,
     event_direction,
 )
 
@@ -21,5 +22,6 @@ __all__ = [
     'HopStateLookup',
     'INVALID_STATE',
     'endpoint_direction_from_codes',
+    'endpoint_states_after_hop',
     'event_direction',
 ]
diff --git a/kmcpy/event/hop.py b/kmcpy/event/hop.py
index a5d2c18..ff34535 100644
--- a/kmcpy/event/hop.py
+++ b/kmcpy/event/hop.py
@@ -54,12 +54,17 @@ class HopStateLookup:
     def annotate_event(self, event: Any) -> None:
         """Attach hot-loop state codes to an event in compact active-site space."""
         from_site, to_site = event.mobile_ion_indices
-        event.hop_state_codes = (
+        codes = (
             int(self.mobile_state_by_site[int(from_site)]),
             int(self.vacancy_state_by_site[int(to_site)]),
             int(self.vacancy_state_by_site[int(from_site)]),
             int(self.mobile_state_by_site[int(to_site)]),
         )
+        if INVALID_STATE in codes:
+            # One endpoint cannot hold the mobile ion or a vacancy, so the
+            # exchange has no valid final state in either direction.
+            codes = (INVALID_STATE,) * 4
+        event.hop_state_codes = codes
 
     def annotate_event_lib(self, event_lib: Any) -> None:
         """Attach precomputed state codes to every event in an event library."""
@@ -89,6 +94,26 @@ def endpoint_direction_from_codes(
     return 0
 
 
+def endpoint_states_after_hop(
+    from_occ: int,
+    to_occ: int,
+    event: Any,
+) -> tuple[int, int]:
+    """Return endpoint states after an event exchanges its endpoint species.
+
+    State indices are site specific: the mobile ion and the vacancy may have
+    different codes on the two endpoints. For endpoint states that are not a
+    possible hop the raw values are exchanged.
+    """
+    codes = getattr(event, "hop_state_codes", DEFAULT_HOP_STATE_CODES)
+    direction = endpoint_direction_from_codes(int(from_occ), int(to_occ), codes)
+    if direction == 1:
+        return codes[2], codes[3]
+    if direction == -1:
+        return codes[0], codes[1]
+    return to_occ, from_occ
+
+
 def _is_mobile_label(specie_label: str, mobile_ion_specie: str) -> bool:
     return str(specie_label) == str(mobile_ion_specie)
 
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..5128a46 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -14,6 +14,7 @@ from typing import Any, Optional
 import numpy as np
 from monty.serialization import loadfn
 
+from kmcpy.event.hop import endpoint_states_after_hop, event_direction
 from kmcpy.models.base import BaseModel, MODEL_FILETYPE, require_model_type
 from kmcpy.structure.active_site_order import ActiveSiteOrder
 
@@ -310,10 +311,13 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        new_from_state, new_to_state = endpoint_states_after_hop(
+            from_state, to_state, event
+        )
         return self._mapped_changes(
             (
-                (from_site, from_state, to_state),
-                (to_site, to_state, from_state),
+                (from_site, from_state, new_from_state),
+                (to_site, to_state, new_to_state),
             )
         )
 
@@ -321,10 +325,14 @@ class SiteEnergyModel(BaseModel):
         from_site, to_site = (int(site) for site in event.mobile_ion_indices)
         from_state = int(occupations[from_site])
         to_state = int(occupations[to_site])
+        # Exchanging the endpoints again recovers the state before the hop.
+        old_from_state, old_to_state = endpoint_states_after_hop(
+            from_state, to_state, event
+        )
         return self._mapped_changes(
             (
-                (from_site, to_state, from_state),
-                (to_site, from_state, to_state),
+                (from_site, old_from_state, from_state),
+                (to_site, old_to_state, to_state),
             )
         )
 
@@ -355,6 +363,9 @@ class SiteEnergyModel(BaseModel):
         if events is None:
             return
         for event_index, event in enumerate(events):
+            if event_direction(occupations, event) == 0:
+                # Not a possible hop now, so there is no change to translate.
+                continue
             try:
                 self._changes_from_pre_state(event, occupations)
             except (IndexError, KeyError, ValueError) as exc:
diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..f8dfc8c 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -12,6 +12,7 @@ from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
 from ..event.base import Event
+from ..event.hop import endpoint_states_after_hop
 
 logger = logging.getLogger(__name__)
 
@@ -148,8 +149,11 @@ class State(MSONable):
         """Apply one event transition and advance simulation counters."""
         from_site, to_site = event.mobile_ion_indices
         self.occupations[from_site], self.occupations[to_site] = (
-            self.occupations[to_site],
-            self.occupations[from_site],
+            endpoint_states_after_hop(
+                self.occupations[from_site],
+                self.occupations[to_site],
+                event,
+            )
         )
         self.time += dt
         self.step += 1
-- 
2.43.0


From 69f2d1b728f9b122a2f61511adc540009ee3406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:57 +0000
Subject: [PATCH 02/38] fix: discard a stale dependency matrix when an event is
 added

Events added after generate_event_dependencies() were absent from the matrix,
so their rates were never refreshed.
---
 kmcpy/event/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..45a7fc0 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -167,6 +167,8 @@ class EventLib(ABC):
         """Add an event to the library and update site mappings."""
         event_index = len(self.events)
         self.events.append(event)
+        # A matrix generated before this event does not cover it.
+        self.event_dependencies = None
 
         # Update site to events mapping using active-site indices
         # mobile_ion_indices and local_env_indices
-- 
2.43.0


From 33e4e8dee1754379489364a1bace935aa4c49cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:06 +0000
Subject: [PATCH 03/38] fix: generate event dependencies in KMC when the
 library has none

With no matrix update() refreshed no rate at all after a hop.
---
 kmcpy/simulator/kmc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..10d01a8 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -104,6 +104,10 @@ class KMC:
         else:
             raise ValueError("State must be provided for clean architecture")
 
+        # update() relies on the dependency matrix to refresh event rates.
+        if len(self.event_lib) and not self.event_lib.has_event_dependencies():
+            self.event_lib.generate_event_dependencies()
+
         self._initialize_model_state()
 
         # Calculate initial probabilities from runtime configuration and state.
-- 
2.43.0


From 2a7d54191e4f2cc3a8536f0dad2de3f89a666e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:51 +0000
Subject: [PATCH 04/38] fix: refresh all rates when local-barrier rules read
 sites outside the event

Rules with sites="all" or an explicit site list depend on sites that are not
part of the event dependency matrix, so their rates went stale.
---
 kmcpy/models/base.py                | 4 ++++
 kmcpy/models/local_barrier_model.py | 8 ++++++++
 kmcpy/simulator/kmc.py              | 7 +++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/base.py b/kmcpy/models/base.py
index 6c74936..62347ef 100644
--- a/kmcpy/models/base.py
+++ b/kmcpy/models/base.py
@@ -59,6 +59,10 @@ class BaseModel(MSONable, ABC):
     """
     fitter_class = None
 
+    # True when an event's rate can depend on sites the event does not list,
+    # so an accepted hop may change the rate of every event.
+    rates_depend_on_all_sites = False
+
     def __init__(self, *args, **kwargs):
         """
         Initialize the BaseModel. This method can be overridden by subclasses to handle specific initialization.
diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 58e1760..5122316 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -840,6 +840,14 @@ class LocalBarrierModel(BaseModel):
         for rule in rules:
             self.add_rule(rule)
 
+    @property
+    def rates_depend_on_all_sites(self) -> bool:
+        """Whether a rule reads sites beyond those listed by the event."""
+        return any(
+            rule.get("sites") == "all" or isinstance(rule.get("sites"), tuple)
+            for rule in self.rules
+        )
+
     def _selected_sites(
         self,
         sites: str | tuple[int, ...],
diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 10d01a8..98a43ea 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -446,8 +446,11 @@ class KMC:
         # Find event index automatically from event library
         event_index = self.event_lib.events.index(event)
         
-        # Use EventLib to get dependent events
-        events_to_be_updated = self.event_lib.get_dependent_events(event_index)
+        if getattr(self.model, "rates_depend_on_all_sites", False) is True:
+            events_to_be_updated = range(len(self.event_lib))
+        else:
+            # Use EventLib to get dependent events
+            events_to_be_updated = self.event_lib.get_dependent_events(event_index)
         
         # Update probabilities for dependent events using configured model
         for e_index in events_to_be_updated:
-- 
2.43.0


From 1a819dd99c2f83285ff4d02b4e85e9643f5adbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:08 +0000
Subject: [PATCH 05/38] fix: base transport coefficients on the time covered by
 the tracker

A resumed state starts with a non-zero clock while displacements start at
zero; dividing by the absolute time underestimated diffusivities.
---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..08ff473 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -96,6 +96,8 @@ class Tracker:
         self.hop_state_lookup = hop_state_lookup
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
+        # Displacements start at zero now, possibly on a resumed clock.
+        self._start_time = float(initial_state.time)
 
         self.results = _create_result_store()
         self.current_pass = 0
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 27eed8185c9ee0e92f27b0bb942731eef664af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:04 +0000
Subject: [PATCH 06/38] fix: pass the production event index to property
 sampling

The documented callback step is the production event index, but equilibration
and resumed steps were counted, shifting every step schedule.
---
 kmcpy/simulator/kmc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 98a43ea..7d5f54b 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -540,6 +540,9 @@ class KMC:
         
         logger.info("Tracker summaries are reported as dynamic property tables per pass.")
 
+        # Property callbacks count production events only.
+        first_step = int(self.simulation_state.step)
+
         # Main KMC loop
         for current_pass in np.arange(config.kmc_passes):
             for _ in np.arange(pass_length):
@@ -549,7 +552,7 @@ class KMC:
                 # KMC is the single owner of mutable simulation state updates.
                 self.update(event, dt=dt)
                 tracker.sample_properties(
-                    step=int(self.simulation_state.step),
+                    step=int(self.simulation_state.step) - first_step,
                     sim_time=float(self.simulation_state.time),
                 )
             
-- 
2.43.0


From 7121b86f0bf1e8ab98b14c51327e76213209e601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:55 +0000
Subject: [PATCH 07/38] fix: let property callbacks be detached while sampling

A callback that detached itself (or a later one) made sample_properties fail
with KeyError when storing, or run the detached callback once more.
---
 kmcpy/simulator/tracker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 08ff473..909498c 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -382,6 +382,9 @@ class Tracker:
         self._sample_transport_summary(step=step, sim_time=sim_time)
 
         for spec in list(self._properties.values()):
+            if self._properties.get(spec.name) is not spec:
+                # Detached by a callback that ran earlier at this step.
+                continue
             if not spec.enabled:
                 continue
 
@@ -409,7 +412,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and self._properties.get(spec.name) is spec:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From 5124b783cfb734cef8caa2c6e933eb4744529cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:12 +0000
Subject: [PATCH 08/38] fix: use the shortest periodic image for hops in skewed
 cells

Rounding fractional coordinates does not always give the minimum image in a
non-orthogonal cell, so displacements could gain a spurious lattice vector.
---
 kmcpy/simulator/tracker.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 909498c..075235d 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -4,6 +4,7 @@
 from __future__ import annotations
 
 import logging
+from itertools import product
 from typing import TYPE_CHECKING, Any, Callable, Optional
 
 import numpy as np
@@ -48,6 +49,9 @@ RESULT_UNITS = {
 }
 
 
+_NEIGHBOR_IMAGES = np.array(list(product((-1, 0, 1), repeat=3)))
+
+
 class CallbackExecutionError(RuntimeError):
     """Raised when an attached property callback fails and cannot be recovered."""
 
@@ -483,7 +487,14 @@ class Tracker:
             self.frac_coords[to_site] - self.frac_coords[from_site]
         )
         displacement_frac -= np.round(displacement_frac).astype(int)
-        return np.array(self.latt.get_cartesian_coords(displacement_frac))
+        displacement = np.array(self.latt.get_cartesian_coords(displacement_frac))
+        # In skewed cells an adjacent image can be shorter than the rounded one.
+        images = displacement + _NEIGHBOR_IMAGES @ np.asarray(self.latt.matrix)
+        lengths = np.linalg.norm(images, axis=1)
+        shortest = int(np.argmin(lengths))
+        if lengths[shortest] < np.linalg.norm(displacement) - 1e-8:
+            return images[shortest]
+        return displacement
 
     def update_current_pass(self, current_pass: int) -> None:
         """Update current pass index used in logging/output."""
-- 
2.43.0


From 04f375d19a81ec07de391adb7b868c627c8de405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:29 +0000
Subject: [PATCH 09/38] fix: stop applying property changes to the tracker of a
 finished run

Detaching a callback or clearing attachments after run() deleted records from
the tracker that run() had already returned.
---
 kmcpy/simulator/kmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 7d5f54b..c495ad4 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -560,6 +560,8 @@ class KMC:
             tracker.show_current_info()
 
         tracker.write_results(label=label)
+        # Later property changes belong to the next run, not to this result.
+        self._active_tracker = None
         return tracker
 
 @njit
-- 
2.43.0


From 0393976ce663ba2cf1b416e79937e39e48719a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 10/38] fix: ignore stored event dependencies that do not cover
 every event

---
 kmcpy/event/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index 45a7fc0..00e2cd9 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -325,10 +325,12 @@ class EventLib(ABC):
             event_lib.events.append(event)
         event_lib._validate_event_indices(active_site_order)
 
-        # Load event dependencies if present and convert back to numba Lists
-        if data.get("event_dependencies"):
+        # Load event dependencies if present and convert back to numba Lists.
+        # A matrix that does not cover every event is stale and is not used.
+        stored_dependencies = data.get("event_dependencies")
+        if stored_dependencies and len(stored_dependencies) == len(event_lib.events):
             event_lib.event_dependencies = List()
-            for row in data["event_dependencies"]:
+            for row in stored_dependencies:
                 numba_row = List()
                 for idx in row:
                     numba_row.append(int(idx))
-- 
2.43.0


From 31a802785f425d506d7049a0609cb9285f034fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:28 +0000
Subject: [PATCH 11/38] fix: validate HDF5 checkpoints against the active-site
 order

---
 kmcpy/simulator/state.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index f8dfc8c..bb4d032 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -116,7 +116,13 @@ class State(MSONable):
         """Load state from a checkpoint or initial-state JSON file."""
         suffix = Path(filepath).suffix.lower()
         if suffix == ".h5":
-            return cls.load_checkpoint(filepath)
+            checkpoint = cls.load_checkpoint(filepath)
+            return cls.from_occupations(
+                checkpoint.occupations,
+                active_site_order=active_site_order,
+                time=checkpoint.time,
+                step=checkpoint.step,
+            )
         if suffix != ".json":
             raise ValueError("State file format must be .json or .h5")
 
-- 
2.43.0


From 4516ef2c91507e277659c57624eec45b20b4cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:17 +0000
Subject: [PATCH 12/38] fix: filter full structures by position when their
 sites are not in template order

---
 kmcpy/structure/active_site_order.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 5dec1a0..957e0a6 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -272,6 +272,19 @@ class ActiveSiteOrder(MSONable):
         )
         return active_structure
 
+    def _follows_template_order(self, structure: Structure) -> bool:
+        """Return whether each site lies closest to the template site of its index."""
+        full_reference = self.full_structure_with_properties()
+        distances = full_reference.lattice.get_all_distances(
+            structure.frac_coords,
+            full_reference.frac_coords,
+        )
+        return bool(
+            np.array_equal(
+                np.argmin(distances, axis=1), np.arange(len(structure))
+            )
+        )
+
     def filter_active_structure(
         self,
         structure: Structure,
@@ -284,7 +297,10 @@ class ActiveSiteOrder(MSONable):
         ):
             return structure.copy()
 
-        if len(structure) == self.original_site_count:
+        if len(structure) == self.original_site_count and (
+            self.template_structure is None
+            or self._follows_template_order(structure)
+        ):
             active_sites = [structure[index] for index in self.active_to_original]
             active_structure = type(structure).from_sites(active_sites)
             active_structure.add_site_property(
-- 
2.43.0


From acf4338ea9b61c4bee6ceb894b99b68a0bc7c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:40 +0000
Subject: [PATCH 13/38] fix: only trust complete active-site indices when
 filtering structures

---
 kmcpy/structure/active_site_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 957e0a6..9a04aa1 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -293,7 +293,8 @@ class ActiveSiteOrder(MSONable):
         """Filter a possibly full structure down to active sites by index metadata or position."""
         if (
             len(structure) == self.active_site_count
-            and ACTIVE_SITE_PROPERTY in structure.site_properties
+            and list(structure.site_properties.get(ACTIVE_SITE_PROPERTY, ()))
+            == list(range(self.active_site_count))
         ):
             return structure.copy()
 
-- 
2.43.0


From e7c07f598f9e4bdef9fa4ff57581c2b0ae4ff8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:27 +0000
Subject: [PATCH 14/38] fix: do not overwrite an unreadable workflow file when
 writing a section

---
 kmcpy/simulator/config.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..6b14c11 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -494,13 +494,7 @@ class Configuration(MSONable):
             if file_format != "yaml":
                 raise ValueError("section output is only supported for YAML files")
             path = Path(filename)
-            if path.exists():
-                try:
-                    yaml_data = loadfn(path)
-                except Exception:
-                    yaml_data = {}
-            else:
-                yaml_data = {}
+            yaml_data = loadfn(path) if path.exists() else {}
             if not isinstance(yaml_data, dict):
                 raise ValueError(f"Existing YAML file {filename} must contain a dictionary")
             yaml_data[section] = {"type": task_type, task_type: config_data}
-- 
2.43.0


From b63cd13aa61f9db7c61c1b1833017af2ed3e16d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:54 +0000
Subject: [PATCH 15/38] fix: pass site-energy apply functions only the
 arguments they accept

---
 kmcpy/models/site_energy.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 5128a46..2b79a2b 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -403,13 +403,18 @@ class SiteEnergyModel(BaseModel):
 
         apply_fn = self._resolve_apply_fn()
         if apply_fn is not None:
-            apply_fn(
-                runtime=self._resolve_runtime(),
-                external_occupation=self.external_occupation,
-                changes=changes,
-                event=event,
-                simulation_state=simulation_state,
-                **self.apply_kwargs,
+            _call_with_supported_keywords(
+                apply_fn,
+                {
+                    "runtime": self._resolve_runtime(),
+                    "external_occupation": self.external_occupation,
+                    "changes": changes,
+                    "event": event,
+                    "simulation_state": simulation_state,
+                    **self.apply_kwargs,
+                },
+                user_kwarg_names=set(self.apply_kwargs),
+                kwargs_label="apply_kwargs",
             )
 
         for change in changes:
@@ -531,6 +536,7 @@ def _call_with_supported_keywords(
     kwargs: dict[str, Any],
     *,
     user_kwarg_names: set[str],
+    kwargs_label: str = "compute_kwargs",
 ):
     """Call a user function with only the keyword arguments it accepts."""
     try:
@@ -556,7 +562,7 @@ def _call_with_supported_keywords(
     unused_user_kwargs = sorted(user_kwarg_names - accepted)
     if unused_user_kwargs:
         raise TypeError(
-            "SiteEnergyModel compute_kwargs contains keys not accepted by "
+            f"SiteEnergyModel {kwargs_label} contains keys not accepted by "
             f"{func}: {unused_user_kwargs}"
         )
     return func(**{key: value for key, value in kwargs.items() if key in accepted})
-- 
2.43.0


From 9e22296b0f8187ca3db5d191f5a36e6124e3fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:07 +0000
Subject: [PATCH 16/38] fix: keep mapped site-energy occupation values that
 differ in type from the initial ones

---
 kmcpy/models/site_energy.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 2b79a2b..b3e75b8 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -270,9 +270,18 @@ class SiteEnergyModel(BaseModel):
             self._external_value(site, int(state))
             for site, state in enumerate(occupations)
         ]
+        # Later hops write any mapped value, not only those present initially.
+        possible_values = list(mapped_values)
+        for lookup in (self._state_lookup, *(self._state_lookup_by_site or ())):
+            if lookup is not None:
+                possible_values.extend(
+                    value
+                    for value in lookup.values
+                    if value is not _MISSING_STATE_VALUE
+                )
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=possible_values,
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -815,7 +824,11 @@ def _resolve_external_dtype(
         return np.dtype(external_dtype)
     values = list(mapped_values)
     if initial_occupation is not None:
-        return initial_occupation.dtype
+        if _dtype_holds_values(initial_occupation.dtype, values):
+            return initial_occupation.dtype
+        values.extend(initial_occupation.tolist())
+    elif values:
+        values.append(fill_value)
     if values and all(isinstance(value, (int, np.integer)) for value in values):
         return np.int64
     if values and all(isinstance(value, (int, float, np.number)) for value in values):
@@ -825,6 +838,17 @@ def _resolve_external_dtype(
     return object
 
 
+def _dtype_holds_values(dtype: np.dtype, values: Sequence[Any]) -> bool:
+    """Return whether values can be stored in an array without being altered."""
+    if dtype == object:
+        return True
+    if np.issubdtype(dtype, np.integer):
+        return all(isinstance(value, (int, np.integer)) for value in values)
+    if np.issubdtype(dtype, np.floating):
+        return all(isinstance(value, (int, float, np.number)) for value in values)
+    return False
+
+
 def _optional_array_copy(value):
     if value is None:
         return None
-- 
2.43.0


From 22200a5ea753abeb1ab3ead356090884c1f7aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:41 +0000
Subject: [PATCH 17/38] fix: reject site mappings that share an external site

---
 kmcpy/models/site_energy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index b3e75b8..0e6a7fc 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -711,6 +711,10 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(np.unique(lookup)) != len(lookup):
+        raise ValueError(
+            "site_mapping maps several kMCpy active sites to one external site"
+        )
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
-- 
2.43.0


From 7ec625ed6d55223a5a677b7ed5319a019323b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:17 +0000
Subject: [PATCH 18/38] fix: refresh all rates when an external site-energy
 model is attached

---
 kmcpy/models/composite_lce_model.py | 8 ++++++++
 kmcpy/models/site_energy.py         | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/kmcpy/models/composite_lce_model.py b/kmcpy/models/composite_lce_model.py
index 0f17326..7293b92 100644
--- a/kmcpy/models/composite_lce_model.py
+++ b/kmcpy/models/composite_lce_model.py
@@ -124,6 +124,14 @@ class CompositeLCEModel(BaseModel):
             "CompositeLCEModel(site_model=..., kra_model=...)."
         )
 
+    @property
+    def rates_depend_on_all_sites(self) -> bool:
+        """Whether a submodel reads sites beyond those listed by the event."""
+        return any(
+            getattr(model, "rates_depend_on_all_sites", False) is True
+            for model in (self.kra_model, self.site_model)
+        )
+
     def _compute_site_energy_difference(
         self,
         event: Event,
diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 0e6a7fc..afd5a27 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -94,6 +94,10 @@ class SiteEnergyModel(BaseModel):
     MODEL_TYPE = "site_energy"
     PAYLOAD_KEY = "site_energy"
 
+    # The callable sees the whole occupation, so a hop anywhere may change the
+    # energy difference of any event.
+    rates_depend_on_all_sites = True
+
     def __init__(
         self,
         compute_fn=None,
-- 
2.43.0


From cbb604a909f051c2e935b7bc98e645395c84f681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 19/38] fix: reject events whose local environment does not fit
 the cluster expansion

---
 kmcpy/models/local_cluster_expansion.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 735fc6c..2573e7a 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -656,7 +656,17 @@ class LocalClusterExpansion(BaseModel):
         corr = np.empty(shape=len(self.cluster_site_indices))
         
         # Extract local occupation using event's local environment indices
-        occ_sublat = deepcopy(occupations[list(event.local_env_indices)])
+        local_env_indices = list(event.local_env_indices)
+        site_state_counts = getattr(self, "basis_site_state_counts", None)
+        if site_state_counts is not None and len(local_env_indices) != len(
+            site_state_counts
+        ):
+            raise ValueError(
+                "Event local environment does not match this "
+                f"LocalClusterExpansion: {len(local_env_indices)} sites != "
+                f"{len(site_state_counts)}"
+            )
+        occ_sublat = deepcopy(occupations[local_env_indices])
             
         self._calculate_correlation(corr, occ_sublat)
         
-- 
2.43.0


From 94427464db213c4917ebbce05e80f7f9690ea712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 20/38] fix: evaluate non-Chebyshev cluster expansions in their
 own basis values

---
 kmcpy/models/local_cluster_expansion.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 2573e7a..be8f170 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -667,6 +667,17 @@ class LocalClusterExpansion(BaseModel):
                 f"{len(site_state_counts)}"
             )
         occ_sublat = deepcopy(occupations[local_env_indices])
+        if site_state_counts is not None and not getattr(
+            self.basis, "uses_state_indices", False
+        ):
+            # States are species indices; evaluate in the values of the basis,
+            # as correlations computed from structures are.
+            occ_sublat = np.array(
+                [
+                    self.basis.state_value(state, n_states)
+                    for state, n_states in zip(occ_sublat, site_state_counts)
+                ]
+            )
             
         self._calculate_correlation(corr, occ_sublat)
         
-- 
2.43.0


From d2867be1093acd4f9765616cd470fa8fbd81d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:01 +0000
Subject: [PATCH 21/38] fix: keep allowed species aligned with the sites of a
 supercell template

---
 kmcpy/structure/lattice_structure.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..df56b49 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,17 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        self.template_structure.add_site_property(
+            "_kmcpy_template_index",
+            list(range(len(self.template_structure))),
+        )
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        # The supercell groups all images of a site, so look each site up.
+        self.allowed_species = [
+            self.allowed_species[int(site.properties["_kmcpy_template_index"])]
+            for site in self.template_structure
+        ]
+        self.template_structure.remove_site_property("_kmcpy_template_index")
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From 8440f7b5efe804c59746e6b927b00b8af0e8491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:01 +0000
Subject: [PATCH 22/38] fix: tell allowed species that differ only in oxidation
 state apart

---
 kmcpy/structure/lattice_structure.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index df56b49..930a384 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -312,8 +312,14 @@ class LatticeStructure(ABC):
         )
         if not allowed_species:
             raise ValueError(f"No allowed species defined for site {site_index}")
-        for state_index, allowed in enumerate(allowed_species):
-            if self._species_matches(specie, allowed):
+        # Prefer the exact species: allowed states may differ only in charge.
+        exact = [
+            index
+            for index, allowed in enumerate(allowed_species)
+            if str(allowed) == str(specie)
+        ]
+        for state_index in exact + list(range(len(allowed_species))):
+            if self._species_matches(specie, allowed_species[state_index]):
                 return self.basis.state_value(state_index, len(allowed_species))
         raise ValueError(f"Species {specie} is not allowed at site {site_index}")
 
-- 
2.43.0


From 12a79ba71c78f04f0033f6423005b8d3ff2830a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:56 +0000
Subject: [PATCH 23/38] fix: recognise every vacancy spelling when inferring
 the mobile species

---
 kmcpy/event/generators.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..a286055 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -24,6 +24,7 @@ from kmcpy.structure.sites import (
     site_index_key,
     structure_from_sites,
 )
+from kmcpy.structure.species import is_vacancy_species
 
 logger = logging.getLogger(__name__) 
 
@@ -82,10 +83,11 @@ class EventGenerator:
     def _mobile_species_from_site_mapping(cls, site_mapping: Dict) -> List[str]:
         mobile_species = []
         for species, allowed_species in site_mapping.items():
-            allowed_tokens = {
-                token.upper() for token in cls._mapping_values(allowed_species)
-            }
-            if "X" in allowed_tokens or "VACANCY" in allowed_tokens:
+            allowed_tokens = cls._mapping_values(allowed_species)
+            if any(
+                is_vacancy_species(token) or token.upper() in {"X", "VACANCY"}
+                for token in allowed_tokens
+            ):
                 mobile_species.append(str(species))
         if not mobile_species:
             raise ValueError(
-- 
2.43.0


From a55af430237e55c50f5a06655524b5de5bf3f197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:18 +0000
Subject: [PATCH 24/38] fix: keep periodic images of the center in a local
 environment

---
 kmcpy/structure/local_lattice_structure.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kmcpy/structure/local_lattice_structure.py b/kmcpy/structure/local_lattice_structure.py
index 5f5d260..9579a24 100644
--- a/kmcpy/structure/local_lattice_structure.py
+++ b/kmcpy/structure/local_lattice_structure.py
@@ -136,11 +136,11 @@ class LocalLatticeStructure(LatticeStructure):
         return list(dict.fromkeys(tokens))
 
     def _is_center_site(self, site_info) -> bool:
-        """Return whether a sphere result corresponds to the center site."""
+        """Return whether a sphere result is the center site itself.
+
+        Periodic images of the center are neighbors like any other site.
+        """
         site = site_info[0]
-        site_index = site_info[2]
-        if self.center_index is not None and int(site_index) == int(self.center_index):
-            return True
         return (
             np.linalg.norm(site.coords - self.center_site.coords)
             <= self.local_site_order.center_match_tolerance
-- 
2.43.0


From 949921ac2b68a34e8e40fde9d48e75e602ea34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:32 +0000
Subject: [PATCH 25/38] fix: enumerate each variable site once when the cutoff
 reaches its periodic images

---
 kmcpy/structure/local_environment_enumerator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..4a5bc07 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -403,7 +403,9 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(
+            dict.fromkeys(int(index) for index in variable_site_indices)
+        )
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -414,7 +416,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # A site can appear several times in the local environment (periodic images).
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From 6f6121f83c03daf3c80b0b50033b3179337616e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:32 +0000
Subject: [PATCH 26/38] fix: empty the hop target with its vacancy state when
 building NEB endpoints

---
 kmcpy/structure/local_environment_enumerator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 4a5bc07..3acd4b2 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -17,6 +17,7 @@ from kmcpy.structure.species import (
     is_vacancy_species,
     species_label,
     species_tokens,
+    vacancy_species,
 )
 
 
@@ -199,9 +200,15 @@ def generate_neb_endpoint_pair(
         raise ValueError("hop sites must have the same first allowed mobile species")
 
     initial_occupation = initial_occupation.copy()
-    initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    final_occupation = initial_occupation.copy()
+    for occupied_site, vacant_site, occupation in (
+        (from_site, to_site, initial_occupation),
+        (to_site, from_site, final_occupation),
+    ):
+        occupation[occupied_site] = active_lattice_structure.basis.match_value
+        occupation[vacant_site] = _occupation_value_for_species(
+            active_lattice_structure, vacant_site, vacancy_species()
+        )
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
-- 
2.43.0


From 27e548d0ac2233dfd15542492358781ab0a457f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:32 +0000
Subject: [PATCH 27/38] fix: match species counts that are zero or carry
 oxidation states

---
 kmcpy/structure/local_environment_enumerator.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 3acd4b2..040578c 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -2,7 +2,6 @@
 
 from __future__ import annotations
 
-from collections import Counter
 from dataclasses import dataclass, field, replace
 from itertools import product
 from typing import Any, Iterable, Mapping, Sequence
@@ -140,7 +139,7 @@ def enumerate_local_environments(
             site_index: _species_label(specie)
             for site_index, specie in zip(variable_sites, choices)
         }
-        if not _matches_counts(species_by_site, exact_counts):
+        if not _matches_counts(choices, exact_counts):
             continue
 
         occupation = base_occupation.copy()
@@ -504,7 +503,11 @@ def _enumerate_with_transformation(
             occupation,
             variable_site_indices,
         )
-        if not _matches_counts(species_by_site, species_counts):
+        species = [
+            _species_for_occupation(active_lattice_structure, index, occupation[index])
+            for index in variable_site_indices
+        ]
+        if not _matches_counts(species, species_counts):
             continue
         result_metadata = {"source": "transformation"}
         result_metadata.update(metadata)
@@ -771,12 +774,15 @@ def _first_allowed_species(lattice_structure: LatticeStructure, site_index: int)
 
 
 def _matches_counts(
-    species_by_site: Mapping[int, str],
+    species: Sequence[Any],
     species_counts: dict[str, int] | None,
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return all(
+        sum(_species_matches_token(specie, token) for specie in species) == count
+        for token, count in species_counts.items()
+    )
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From b1cdbd664c2a118dca3fc72dab003b816693f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:34 +0000
Subject: [PATCH 28/38] fix: accept structures whose active sites are all
 vacant

---
 kmcpy/structure/active_site_order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/structure/active_site_order.py b/kmcpy/structure/active_site_order.py
index 9a04aa1..29e440d 100644
--- a/kmcpy/structure/active_site_order.py
+++ b/kmcpy/structure/active_site_order.py
@@ -336,6 +336,9 @@ class ActiveSiteOrder(MSONable):
             kept_by_active_index[index]
             for index in sorted(kept_by_active_index)
         ]
+        if not active_sites:
+            # Every active site is vacant; only fixed sites were given.
+            return type(structure)(structure.lattice, [], [])
         active_structure = type(structure).from_sites(active_sites)
         active_structure.add_site_property(
             ACTIVE_SITE_PROPERTY, sorted(kept_by_active_index)
-- 
2.43.0


From 43f97ff3ac41583fcaf1d24d627356482c151f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:41 +0000
Subject: [PATCH 29/38] fix: keep the local site order when saving fitted
 parameters

---
 kmcpy/models/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..7e6ed93 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -49,6 +49,8 @@ class LCEModelParameters(MSONable):
             data["orbit_fingerprints"] = self.orbit_fingerprints
         if self.local_environment_hash is not None:
             data["local_environment_hash"] = self.local_environment_hash
+        if self.local_site_order is not None:
+            data["local_site_order"] = self.local_site_order
         return data
 
     @classmethod
-- 
2.43.0


From 0727b66cc694d5321ca9db6538b1f3631b02da03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:41 +0000
Subject: [PATCH 30/38] fix: read HDF5 parameter histories in the order they
 were appended

---
 kmcpy/models/parameters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 7e6ed93..b23111c 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -148,7 +148,9 @@ class LCEModelParamHistory(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
             with h5py.File(filename, "r") as h5file:
-                for key in sorted(h5file.keys()):
+                for key in sorted(
+                    h5file.keys(), key=lambda name: int(name.rsplit("_", 1)[-1])
+                ):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
         return cls.from_dict(loadfn(filename, cls=None))
-- 
2.43.0


From 13ca609820b833043ae879ae092ec95a45a381af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:41 +0000
Subject: [PATCH 31/38] fix: store nested and text fields of fitted parameters
 in HDF5

---
 kmcpy/models/parameters.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index b23111c..d4c6eec 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import json
 from dataclasses import dataclass, field
 from pathlib import Path
 from typing import Any
@@ -9,6 +10,8 @@ from typing import Any
 from monty.json import MSONable
 from monty.serialization import dumpfn, loadfn
 
+_HDF5_JSON_FIELDS = {"cluster_site_indices", "local_site_order"}
+
 
 @dataclass
 class LCEModelParameters(MSONable):
@@ -181,7 +184,11 @@ def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
 
 
 def _read_hdf5_group(group) -> dict[str, Any]:
-    return {key: _decode_hdf5_value(value[()]) for key, value in group.items()}
+    data = {key: _decode_hdf5_value(value[()]) for key, value in group.items()}
+    for key in _HDF5_JSON_FIELDS.intersection(data):
+        if isinstance(data[key], str):
+            data[key] = json.loads(data[key])
+    return data
 
 
 def _write_hdf5_parameter_group(filename: Path, data: dict[str, Any]) -> None:
@@ -197,6 +204,9 @@ def _write_hdf5_group(group, data: dict[str, Any]) -> None:
     for key, value in data.items():
         if key.startswith("@") or value is None:
             continue
+        if key in _HDF5_JSON_FIELDS:
+            # Nested values have no HDF5 array equivalent.
+            value = json.dumps(value)
         group.create_dataset(key, data=value)
 
 
@@ -204,5 +214,7 @@ def _decode_hdf5_value(value):
     if isinstance(value, bytes):
         return value.decode("utf-8")
     if hasattr(value, "tolist"):
-        return value.tolist()
+        return _decode_hdf5_value(value.tolist())
+    if isinstance(value, list):
+        return [_decode_hdf5_value(item) for item in value]
     return value
-- 
2.43.0


From 4ecff45af5806551bffd1987e80d0dea3262b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:01 +0000
Subject: [PATCH 32/38] fix: read and write fitted parameters as YAML

---
 kmcpy/models/parameters.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index d4c6eec..1ef1b81 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -7,7 +7,7 @@ from dataclasses import dataclass, field
 from pathlib import Path
 from typing import Any
 
-from monty.json import MSONable
+from monty.json import MSONable, jsanitize
 from monty.serialization import dumpfn, loadfn
 
 _HDF5_JSON_FIELDS = {"cluster_site_indices", "local_site_order"}
@@ -88,7 +88,7 @@ class LCEModelParameters(MSONable):
         filename = Path(filename)
         if filename.suffix == ".h5":
             return cls.from_dict(_read_hdf5_parameter_group(filename))
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted parameters to JSON/YAML or HDF5."""
@@ -96,7 +96,7 @@ class LCEModelParameters(MSONable):
         if filename.suffix == ".h5":
             _write_hdf5_parameter_group(filename, self.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text(self.as_dict(), filename, indent)
 
     def __str__(self) -> str:
         values = ", ".join(
@@ -156,7 +156,7 @@ class LCEModelParamHistory(MSONable):
                 ):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
-        return cls.from_dict(loadfn(filename, cls=None))
+        return cls.from_dict(_load_text(filename))
 
     def to(self, filename: str | Path, indent: int = 4) -> None:
         """Write fitted-parameter history to JSON/YAML or HDF5."""
@@ -171,7 +171,27 @@ class LCEModelParamHistory(MSONable):
                     group = h5file.create_group(f"parameter_set_{index}")
                     _write_hdf5_group(group, parameters.as_dict())
             return
-        dumpfn(self.as_dict(), filename, indent=indent)
+        _dump_text(self.as_dict(), filename, indent)
+
+
+def _is_yaml(filename: Path) -> bool:
+    name = filename.name.lower()
+    return ".yaml" in name or ".yml" in name
+
+
+def _load_text(filename: Path):
+    # cls=None keeps monty from decoding JSON payloads; its YAML reader has no such
+    # argument.
+    if _is_yaml(filename):
+        return jsanitize(loadfn(filename))
+    return loadfn(filename, cls=None)
+
+
+def _dump_text(data: dict[str, Any], filename: Path, indent: int) -> None:
+    if _is_yaml(filename):
+        dumpfn(jsanitize(data), filename)
+    else:
+        dumpfn(data, filename, indent=indent)
 
 
 def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
-- 
2.43.0


From 05ec5cd4d6b756e7cfc4ee8dc7b2791cfb08e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:03 +0000
Subject: [PATCH 33/38] fix: fit models that have a single correlation feature

---
 kmcpy/models/fitting/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/models/fitting/fitter.py b/kmcpy/models/fitting/fitter.py
index a8346a3..f0d4412 100644
--- a/kmcpy/models/fitting/fitter.py
+++ b/kmcpy/models/fitting/fitter.py
@@ -311,7 +311,7 @@ class LCEFitter(BaseFitter):
         e_kra = np.loadtxt(ekra_fname)
         weight = np.loadtxt(weight_fname)
         weight_copy = copy(weight)
-        correlation_matrix = np.loadtxt(corr_fname)
+        correlation_matrix = np.loadtxt(corr_fname, ndmin=2)
 
         keci, empty_cluster, y_pred = self._fit_lasso_values(
             correlation_matrix=correlation_matrix,
-- 
2.43.0


From 1e898e8a381e25cca648f1e16f7515754dee5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:44 +0000
Subject: [PATCH 34/38] fix: load CIF sites shared by atoms listed at
 symmetry-equivalent positions

---
 kmcpy/io/cif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/io/cif.py b/kmcpy/io/cif.py
index 1bd2cd0..bce6f6c 100644
--- a/kmcpy/io/cif.py
+++ b/kmcpy/io/cif.py
@@ -141,7 +141,7 @@ class _LabeledCifParser(CifParser):
                     coord_to_species[match] += comp
                     # disordered magnetic not currently supported
                     coord_to_magmoms[match] = None
-                    coord_to_labels[coord] += data["_atom_site_label"][i]
+                    coord_to_labels[match] += data["_atom_site_label"][i]
 
         sum_occu = [
             sum(c.values())
-- 
2.43.0


From 507830ff8fad17261b02e63fbd5fb2b2fbae8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:58 +0000
Subject: [PATCH 35/38] fix: do not count elements whose symbol contains the
 mobile ion's as mobile ions

---
 kmcpy/simulator/kmc.py     | 2 +-
 kmcpy/simulator/tracker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index c495ad4..ec0d47f 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -508,7 +508,7 @@ class KMC:
         pass_length = len([
             el.symbol
             for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
+            if config.mobile_ion_specie == el.symbol
         ])
         
         logger.info("============================================================")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 075235d..1b51b85 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -133,7 +133,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if self.mobile_ion_specie == el.symbol]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From 7e1c6f72236016e23a05847d39f41fb3b9fb9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 36/38] fix: a default barrier given to build() replaces the
 one kept from an earlier build

---
 kmcpy/models/local_barrier_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_barrier_model.py b/kmcpy/models/local_barrier_model.py
index 5122316..2a83375 100644
--- a/kmcpy/models/local_barrier_model.py
+++ b/kmcpy/models/local_barrier_model.py
@@ -819,7 +819,11 @@ class LocalBarrierModel(BaseModel):
         if default_barrier is not None:
             if self.default_properties is None:
                 self.default_properties = {}
-            self.default_properties.setdefault("barrier", float(default_barrier))
+            if default_properties is None:
+                # Replaces the barrier kept from an earlier build.
+                self.default_properties["barrier"] = float(default_barrier)
+            else:
+                self.default_properties.setdefault("barrier", float(default_barrier))
         if default_property is not None:
             self.default_property = default_property
         if probability_mode is not None:
-- 
2.43.0


From 33de87af84229871c91ebe51e4ddba205bb6f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 37/38] fix: read composition and index of gathered KMC results
 from the file name only

---
 kmcpy/tools/gather_kmc_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/tools/gather_kmc_data.py b/kmcpy/tools/gather_kmc_data.py
index 8ac4886..e02c6f6 100644
--- a/kmcpy/tools/gather_kmc_data.py
+++ b/kmcpy/tools/gather_kmc_data.py
@@ -30,8 +30,10 @@ def gather_data(path):
     data = []
     print(locations)
     for location in locations:
-        x = float(location.split(".csv.gz")[0].split("_")[1])
-        structure_index = int(location.split(".csv.gz")[0].split("_")[2])
+        # Directory names may contain underscores too: parse the file name only.
+        fields = os.path.basename(location).split(".csv.gz")[0].split("_")
+        x = float(fields[1])
+        structure_index = int(fields[2])
         print(x, structure_index)
         df = pd.read_csv(location, compression="gzip")
         df["comp"] = x
-- 
2.43.0


From 12baf56c5d67bef6f8d81970cb3a2c21fc723b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:40 +0000
Subject: [PATCH 38/38] fix: compare species for equality when gathering Monte
 Carlo occupations

---
 kmcpy/tools/gather_mc_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/tools/gather_mc_data.py b/kmcpy/tools/gather_mc_data.py
index f6f79fc..4c1488b 100644
--- a/kmcpy/tools/gather_mc_data.py
+++ b/kmcpy/tools/gather_mc_data.py
@@ -109,7 +109,7 @@ def _get_occ(
         matched_site_idx = np.where(dists_cart < 1e-6)[0]
         if (
             matched_site_idx.size > 0
-            and casm_species[matched_site_idx[0]] in template_specie
+            and casm_species[matched_site_idx[0]] == template_specie
         ):
             occ[i] = -1
         else:
-- 
2.43.0

