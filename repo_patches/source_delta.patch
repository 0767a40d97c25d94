From 090091b889a4ba47473444594392402995da7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 001/101] fix: staircase waveform with a final amplitude below
 the start amplitude

---
 quantify_scheduler/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index da5d7ab..0824d70 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -88,10 +88,10 @@ def staircase(
         duration = float(t[-1] - t[0])
 
     amp_step = (final_amp - start_amp) / (num_steps - 1)
-    waveform = np.floor(t * (num_steps / duration)) * amp_step + start_amp
-    # Replace out of range values with start_amp or final_amp.
+    # Out of range times use start_amp (first step) or final_amp (last step).
     # In most cases that would only happen when `duration in t`
-    return np.minimum(np.maximum(waveform, start_amp), final_amp)
+    step = np.clip(np.floor(t * (num_steps / duration)), 0, num_steps - 1)
+    return step * amp_step + start_amp
 
 
 def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
-- 
2.43.0


From 1519528983c32cd857a53c5e2fdea9806123b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 002/101] fix: drag waveform accepts the documented
 subtract_offset=None

---
 quantify_scheduler/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 0824d70..72deeb5 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -246,7 +246,7 @@ def drag(
     deriv_gauss_env = -D_amp * (t - mu) / sigma * gauss_env
 
     # Subtract offsets
-    if subtract_offset.lower() == "none" or subtract_offset is None:
+    if subtract_offset is None or subtract_offset.lower() == "none":
         # Do not subtract offset
         pass
     elif subtract_offset.lower() == "average":
-- 
2.43.0


From 189b24c571ca6b688a81eb8eadb1f972ef46a77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 003/101] fix: sudden net zero waveform drops a sample due to
 floating point errors

---
 quantify_scheduler/waveforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 72deeb5..7567143 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -345,9 +345,10 @@ def sudden_net_zero(
 
     """
     sampling_rate = t[1] - t[0]
-    single_arm_samples = int(t_pulse / 2 / sampling_rate)
-    mid_samples = int(t_phi / sampling_rate)
-    num_corr_samples = int(t_integral_correction / sampling_rate)
+    # Rounding before flooring avoids losing a sample to floating point errors.
+    single_arm_samples = int(round(t_pulse / 2 / sampling_rate, 6))
+    mid_samples = int(round(t_phi / sampling_rate, 6))
+    num_corr_samples = int(round(t_integral_correction / sampling_rate, 6))
 
     if 2 * single_arm_samples + mid_samples + num_corr_samples > len(t):
         raise ValueError(
-- 
2.43.0


From acd051318106a9a5d90852f159cb789d39bec701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 004/101] fix: soft square waveform of 4 or 5 samples is not a
 number

---
 quantify_scheduler/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 7567143..0858094 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -110,7 +110,9 @@ def soft_square(t: NDArray | list[float], amp: float | complex) -> NDArray:
     data = square(t, amp)
     if len(t) > 1:
         window = signal.windows.hann(int(len(t) / 2))
-        data = signal.convolve(data, window, mode="same") / sum(window)
+        # The window of two samples contains only zeros and cannot be normalized.
+        if np.any(window):
+            data = signal.convolve(data, window, mode="same") / sum(window)
     return data
 
 
-- 
2.43.0


From 6dd6e03adc145171a6a1fcb4f6b1a95ff28d2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 005/101] fix: get_waveform returns an extra sample due to
 floating point errors

---
 quantify_scheduler/helpers/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/helpers/waveforms.py b/quantify_scheduler/helpers/waveforms.py
index 67a97c6..dbf49f6 100644
--- a/quantify_scheduler/helpers/waveforms.py
+++ b/quantify_scheduler/helpers/waveforms.py
@@ -175,7 +175,9 @@ def get_waveform(
         The waveform.
 
     """
-    t: np.ndarray = np.arange(0, 0 + pulse_info["duration"], 1 / sampling_rate)
+    # Rounding before taking the ceiling avoids an extra sample due to floating point errors.
+    num_samples = math.ceil(round(pulse_info["duration"] * sampling_rate, 6))
+    t: np.ndarray = np.arange(num_samples) * (1 / sampling_rate)
     wf_func: str = pulse_info["wf_func"]
     waveform: np.ndarray = exec_waveform_function(wf_func, t, pulse_info)
 
-- 
2.43.0


From eec4d8068f41c7f78592fa6166b35c18fbdca7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 006/101] fix: additional timing constraint without reference
 uses the documented default

---
 quantify_scheduler/compilation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 038f029..197a323 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -278,19 +278,18 @@ def _make_timing_constraints_explicit_for_schedulable(
     if strategy == SchedulingStrategy.ALAP and len(given_timing_constraints) != 1:
         raise NotImplementedError("Only exactly one timing constraint per Schedulable supported.")
 
-    timing_constraint: TimingConstraint = given_timing_constraints[0]
+    for timing_constraint in given_timing_constraints:
+        if timing_constraint.ref_schedulable is None:
+            timing_constraint.ref_schedulable = default_reference_schedulable_name
 
-    if timing_constraint.ref_schedulable is None:
-        timing_constraint.ref_schedulable = default_reference_schedulable_name
+        if timing_constraint.ref_pt is None:
+            timing_constraint.ref_pt = _determine_default_ref_pt(strategy)
 
-    if timing_constraint.ref_pt is None:
-        timing_constraint.ref_pt = _determine_default_ref_pt(strategy)
+        if timing_constraint.ref_pt_new is None:
+            timing_constraint.ref_pt_new = _determine_default_ref_pt_new(strategy)
 
-    if timing_constraint.ref_pt_new is None:
-        timing_constraint.ref_pt_new = _determine_default_ref_pt_new(strategy)
-
-    if timing_constraint.rel_time is None:
-        timing_constraint.rel_time = 0.0
+        if timing_constraint.rel_time is None:
+            timing_constraint.rel_time = 0.0
 
 
 def _determine_default_ref_pt(strategy: SchedulingStrategy) -> Literal["start", "end"]:
-- 
2.43.0


From 066b3aafe558a91396e4575709552785d3e91938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 007/101] fix: timing of a schedule that is used in several
 control flow operations

---
 quantify_scheduler/compilation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 197a323..ac3c414 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -173,10 +173,12 @@ def _determine_absolute_timing_schedule(
         if i == 0:
             schedulable.data["abs_time"] = 0.0
         elif scheduling_strategy == SchedulingStrategy.ASAP:
-            for timing_constraint in timing_constraints:
-                abs_time = _get_start_time(schedule, timing_constraint, operation, time_unit)
-                if "abs_time" not in schedulable or abs_time > schedulable["abs_time"]:
-                    schedulable.data["abs_time"] = abs_time
+            # Do not take an already present absolute time into account, the schedule
+            # can be shared by several operations.
+            schedulable.data["abs_time"] = max(
+                _get_start_time(schedule, timing_constraint, operation, time_unit)
+                for timing_constraint in timing_constraints
+            )
         else:
             schedulable.data["abs_time"] = _get_start_time(
                 schedule, timing_constraints[0], operation, time_unit
-- 
2.43.0


From 9bec2076d1d1b8f198d6a59d924bc55f5b90f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 008/101] fix: operations that differ by -1 and -2 in a
 parameter have the same hash

---
 quantify_scheduler/helpers/collections.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/quantify_scheduler/helpers/collections.py b/quantify_scheduler/helpers/collections.py
index 9e48ca7..0bc6ea0 100644
--- a/quantify_scheduler/helpers/collections.py
+++ b/quantify_scheduler/helpers/collections.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 
 from collections import UserDict
 from collections.abc import Iterable, MutableMapping
+from numbers import Number
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -47,6 +48,13 @@ def make_hash(obj: set | tuple | list | np.ndarray | dict | Hashable) -> int:
         tuple_of_hashes = ((key, make_hash(val)) for key, val in obj.items())
         return hash(frozenset(sorted(tuple_of_hashes)))
 
+    if isinstance(obj, complex) and obj.imag != 0:
+        return hash((make_hash(obj.real), make_hash(obj.imag)))
+
+    # Python's built-in hash is the same for -1 and -2.
+    if isinstance(obj, Number) and obj == -1:
+        return hash("-1")
+
     return hash(obj)
 
 
-- 
2.43.0


From 9242da372dac8c3c00c5c1c21485fbe3e5291a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 009/101] fix: delay after a measurement is applied again each
 time the timing is determined

---
 quantify_scheduler/compilation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index ac3c414..751a57f 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -220,9 +220,13 @@ def _apply_operation_delays(
         operation = schedule.operations[schedulable.data["operation_id"]]
         if "next_operation_delay" in operation.data:
             delays[schedulable_name] = operation.data["next_operation_delay"]
-        for timing_constraint in schedulable.data["timing_constraints"]:
-            if timing_constraint.ref_schedulable in delays:
-                timing_constraint.rel_time += delays[timing_constraint.ref_schedulable]
+        # The timing of a schedule that is shared by several operations is determined more
+        # than once, but the delay should be added only once.
+        if not schedulable.data.get("operation_delays_applied", False):
+            for timing_constraint in schedulable.data["timing_constraints"]:
+                if timing_constraint.ref_schedulable in delays:
+                    timing_constraint.rel_time += delays[timing_constraint.ref_schedulable]
+                    schedulable.data["operation_delays_applied"] = True
         yield schedulable_name
 
 
-- 
2.43.0


From 5cc1aa9de923fc78c301a7541eecc18a5e50e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 010/101] fix: inline assembly operation loses its content when
 serialised

---
 .../backends/qblox/operations/inline_q1asm.py   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
index 96d2e02..b74504e 100644
--- a/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
+++ b/quantify_scheduler/backends/qblox/operations/inline_q1asm.py
@@ -122,6 +122,23 @@ class InlineQ1ASM(Operation):
             parameter_list.append(f"{parameter}={cur_atr}")
         return f"{self._name}({', '.join(parameter_list)})"
 
+    def __getstate__(self) -> dict[str, object]:
+        return {
+            **super().__getstate__(),
+            "inline_q1asm": {
+                "program": self.program,
+                "duration": self.duration,
+                "port": self.port,
+                "clock": self.clock,
+                "waveforms": self.waveforms,
+                "safe_labels": self.safe_labels,
+            },
+        }
+
+    def __setstate__(self, state: dict[str, dict]) -> None:
+        self.__init__(**state["inline_q1asm"])
+        self.data = state["data"]
+
     # TODO remove once UserDict is removed as superclass
     def __deepcopy__(self, memo: dict) -> InlineQ1ASM:
         """Make a deepcopy of this object."""
-- 
2.43.0


From 844cd748828912bf5e0cc4417347ef405bddaded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 011/101] fix: operations share the content of operations that
 were added to them

---
 quantify_scheduler/operations/operation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/operations/operation.py b/quantify_scheduler/operations/operation.py
index f9bbf87..75c9ec8 100644
--- a/quantify_scheduler/operations/operation.py
+++ b/quantify_scheduler/operations/operation.py
@@ -224,7 +224,7 @@ class Operation(JSONSchemaValMixin, UserDict):
             an operation containing gate_info.
 
         """
-        self.data["gate_info"].update(gate_operation.data["gate_info"])
+        self.data["gate_info"].update(deepcopy(gate_operation.data["gate_info"]))
 
     def add_device_representation(self, device_operation: Operation) -> None:
         """
@@ -250,7 +250,7 @@ class Operation(JSONSchemaValMixin, UserDict):
             an operation containing pulse_info.
 
         """
-        self.data["pulse_info"] += pulse_operation.data["pulse_info"]
+        self.data["pulse_info"] += deepcopy(pulse_operation.data["pulse_info"])
         self._update()
 
     def add_acquisition(self, acquisition_operation: Operation) -> None:
@@ -263,7 +263,7 @@ class Operation(JSONSchemaValMixin, UserDict):
             an operation containing acquisition_info.
 
         """
-        self.data["acquisition_info"] += acquisition_operation.data["acquisition_info"]
+        self.data["acquisition_info"] += deepcopy(acquisition_operation.data["acquisition_info"])
         self._update()
 
     def get_used_port_clocks(self) -> set[tuple[str, str]]:
-- 
2.43.0


From b16f3a3db5c5d15b9789f213bb165da9bfa37f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 012/101] fix: waits shorter than 4 ns are not valid for the
 sequence processor

Extend the previous real-time instruction instead of emitting an instruction that the assembler rejects.
---
 .../backends/qblox/qasm_program.py            | 61 ++++++++++++++++++-
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index e376746..164c0ea 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -231,7 +231,11 @@ class QASMProgram:
 
         comment = comment if comment else f"auto generated wait ({wait_time} ns)"
         if wait_time > constants.IMMEDIATE_MAX_WAIT_TIME:
-            repetitions = wait_time // constants.IMMEDIATE_MAX_WAIT_TIME
+            repetitions, time_left = divmod(int(wait_time), constants.IMMEDIATE_MAX_WAIT_TIME)
+            if 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+                # Too short for an instruction of its own.
+                repetitions -= 1
+                time_left += constants.IMMEDIATE_MAX_WAIT_TIME
 
             # number of instructions where it becomes worthwhile to use a loop.
             instr_number_using_loop = 4
@@ -256,11 +260,14 @@ class QASMProgram:
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
                     self.conditional_manager.num_real_time_instructions += 1
-            time_left = wait_time % constants.IMMEDIATE_MAX_WAIT_TIME
         else:
             time_left = int(wait_time)
 
-        if time_left > 0:
+        if 0 < time_left < constants.MIN_TIME_BETWEEN_OPERATIONS:
+            self._extend_last_real_time_instruction(time_left)
+            if count_as_elapsed_time:
+                self.elapsed_time += time_left
+        elif time_left > 0:
             self.emit(
                 q1asm_instructions.WAIT,
                 time_left,
@@ -270,6 +277,54 @@ class QASMProgram:
                 self.elapsed_time += time_left
             self.conditional_manager.num_real_time_instructions += 1
 
+    def _extend_last_real_time_instruction(self, duration: int) -> None:
+        """
+        Lengthen the last real-time instruction in the program by a duration that is too
+        short for a wait instruction.
+
+        Parameters
+        ----------
+        duration
+            The time in ns to add to the last real-time instruction.
+
+        Raises
+        ------
+        ValueError
+            If there is no real-time instruction directly before this point in the program.
+
+        """
+        real_time_instructions = (
+            q1asm_instructions.WAIT,
+            q1asm_instructions.UPDATE_PARAMETERS,
+            q1asm_instructions.PLAY,
+            q1asm_instructions.ACQUIRE,
+            q1asm_instructions.ACQUIRE_WEIGHED,
+            q1asm_instructions.ACQUIRE_TTL,
+            q1asm_instructions.ACQUIRE_TIMETAGS,
+            q1asm_instructions.FEEDBACK_TRIGGERS_RST,
+        )
+        control_instructions = (
+            q1asm_instructions.LOOP,
+            q1asm_instructions.JUMP,
+            q1asm_instructions.JUMP_GREATER_EQUALS,
+            q1asm_instructions.JUMP_LESS_THAN,
+            q1asm_instructions.FEEDBACK_SET_COND,
+        )
+        for instruction in reversed(self.instructions):
+            label, name, arguments, _ = instruction
+            if name in real_time_instructions:
+                *others, old_duration = str(arguments).split(",")
+                if old_duration.isdigit():
+                    instruction[2] = ",".join([*others, str(int(old_duration) + duration)])
+                    return
+            if label or name in (*real_time_instructions, *control_instructions):
+                break
+        raise ValueError(
+            f"Invalid wait time. Attempting to wait for {duration} ns at t={self.elapsed_time} ns, "
+            f"directly after the start or end of a control flow block. Please ensure a minimum "
+            f"interval of {constants.MIN_TIME_BETWEEN_OPERATIONS} ns."
+        )
+
     def wait_till_start_operation(self, operation: OpInfo) -> None:
         """
         Waits until the start of a pulse or acquisition.
-- 
2.43.0


From cf5d978b684d78cdf55ac286cbf183971f55b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 013/101] fix: phase and frequency changes in control flow
 ignore the control flow

A phase shift, phase reset or frequency change in a loop or conditional, on a clock without
pulses in the same body, was applied once and unconditionally. A loop without any port-clock
raised an exception.
---
 quantify_scheduler/backends/qblox/helpers.py | 55 ++++++++++++++++++--
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 60dc625..f5357fa 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -630,12 +630,48 @@ class ConditionalBegin(Operation):
         return self._get_signature(self.data["control_flow_info"])
 
 
+def _get_clocks_of_clock_operations(operation: Operation | Schedule) -> set[str]:
+    """Get the clocks for which there are operations without a port, e.g. phase shifts."""
+    if isinstance(operation, ScheduleBase):
+        return set().union(
+            *(_get_clocks_of_clock_operations(op) for op in operation.operations.values())
+        )
+    if isinstance(operation, ControlFlowOperation):
+        return _get_clocks_of_clock_operations(operation.body)
+    return {
+        pulse_info["clock"]
+        for pulse_info in operation["pulse_info"]
+        if pulse_info.get("port") is None
+        and any(
+            key in pulse_info for key in ("phase_shift", "reset_clock_phase", "clock_freq_new")
+        )
+    }
+
+
+def _get_control_flow_port_clocks(
+    control_flow_operation: ControlFlowOperation, portclock_mapping: dict[str, str]
+) -> set[tuple[str, str]]:
+    """
+    Get the port-clocks that need to follow the control flow.
+
+    These are the port-clocks used in the body, and those that use a clock that is changed in
+    the body.
+    """
+    clocks = _get_clocks_of_clock_operations(control_flow_operation)
+    port_clocks = set(control_flow_operation.get_used_port_clocks())
+    for portclock in portclock_mapping:
+        port, clock = portclock.split("-")
+        if clock in clocks:
+            port_clocks.add((port, clock))
+    return port_clocks
+
+
 def _get_control_flow_begin(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     if isinstance(control_flow_operation, LoopOperation):
         begin_operation: Operation = LoopBegin(
             control_flow_operation.data["control_flow_info"]["repetitions"],
@@ -702,10 +738,10 @@ class _ControlFlowReturn(Operation):
 
 def _get_control_flow_end(
     control_flow_operation: ControlFlowOperation,
+    port_clocks: set[tuple[str, str]],
 ) -> Operation:
     assert isinstance(control_flow_operation, (LoopOperation, ConditionalOperation))
 
-    port_clocks = control_flow_operation.get_used_port_clocks()
     end_operation: Operation = _ControlFlowReturn()
     end_operation["pulse_info"] = [
         {
@@ -726,6 +762,7 @@ def _get_list_of_operations_for_op_info_creation(
     time_offset: float,
     accumulator: list[tuple[float, Operation, FullSchedulableLabel]],
     full_schedulable_label: FullSchedulableLabel,
+    portclock_mapping: dict[str, str],
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for schedulable in operation.schedulables.values():
@@ -738,12 +775,17 @@ def _get_list_of_operations_for_op_info_creation(
                 time_offset + abs_time,
                 accumulator,
                 new_full_schedulable_label,
+                portclock_mapping,
             )
     elif isinstance(operation, ControlFlowOperation):
+        port_clocks = _get_control_flow_port_clocks(operation, portclock_mapping)
+        if not port_clocks:
+            # There is nothing to do for any sequencer, except for waiting.
+            return
         accumulator.append(
             (
                 to_grid_time(time_offset) * 1e-9,
-                _get_control_flow_begin(operation),
+                _get_control_flow_begin(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -753,12 +795,13 @@ def _get_list_of_operations_for_op_info_creation(
             time_offset,
             accumulator,
             new_full_schedulable_label,
+            portclock_mapping,
         )
         assert operation.body.duration is not None
         accumulator.append(
             (
                 to_grid_time(time_offset + operation.body.duration) * 1e-9,
-                _get_control_flow_end(operation),
+                _get_control_flow_end(operation, port_clocks),
                 full_schedulable_label + (None,),
             )
         )
@@ -938,7 +981,9 @@ def assign_pulse_and_acq_info_to_devices(
     portclock_mapping = generate_port_clock_to_device_map(device_compilers)
 
     list_of_operations: list[tuple[float, Operation, FullSchedulableLabel]] = list()
-    _get_list_of_operations_for_op_info_creation(schedule, 0, list_of_operations, ())
+    _get_list_of_operations_for_op_info_creation(
+        schedule, 0, list_of_operations, (), portclock_mapping
+    )
     list_of_operations.sort(key=lambda abs_time_and_op: abs_time_and_op[0])
 
     for operation_start_time, operation, optional_full_schedulable_label in list_of_operations:
-- 
2.43.0


From 1109e30f3c422be989c87413ef167bfd154235bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 014/101] fix: last part of a long ramp pulse can be shorter
 than 4 ns

---
 .../backends/qblox/operations/pulse_factories.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 485b1d1..81cee9c 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -271,7 +271,8 @@ def long_ramp_pulse(
 
     """
     dur_ns = helpers.to_grid_time(duration)
-    num_whole_parts = (dur_ns - 1) // part_duration_ns
+    # The final part must not be shorter than the minimum time between operations.
+    num_whole_parts = max(dur_ns - constants.MIN_TIME_BETWEEN_OPERATIONS, 0) // part_duration_ns
     amp_part = part_duration_ns / dur_ns * amp
     dur_left = (dur_ns - num_whole_parts * part_duration_ns) * 1e-9
     amp_left = amp - num_whole_parts * amp_part
-- 
2.43.0


From 6c7103077df1c22ce9bbe885f53f74c6d443e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 015/101] fix: overlapping pulses in control flow are not
 stacked

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 214740d..85d8946 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -17,6 +17,7 @@ from quantify_scheduler.backends.qblox.helpers import is_square_pulse, to_grid_t
 from quantify_scheduler.backends.qblox.operations.pulse_library import (
     SimpleNumericalPulse,
 )
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 if TYPE_CHECKING:
@@ -84,6 +85,9 @@ def _construct_pulses_by_port_clock(
         if isinstance(op, Schedule):
             schedule.operations[schedulable["operation_id"]] = stack_pulses(op, {})
             continue
+        elif isinstance(op, ControlFlowOperation):
+            _stack_pulses_in_control_flow(op)
+            continue
         elif not op.valid_pulse or not op.data.get("pulse_info"):
             continue
 
@@ -112,6 +116,15 @@ def _construct_pulses_by_port_clock(
     return pulses_by_port_clock
 
 
+def _stack_pulses_in_control_flow(operation: ControlFlowOperation) -> None:
+    """Stack the pulses in the body of a control flow operation."""
+    body = operation.body
+    if isinstance(body, Schedule):
+        operation.body = stack_pulses(body, {})
+    elif isinstance(body, ControlFlowOperation):
+        _stack_pulses_in_control_flow(body)
+
+
 def _construct_pulses_by_interval(
     sorted_pulses: list[PulseParameters],
 ) -> list[PulseInterval]:
-- 
2.43.0


From 35e2a423448938f33af6472a532f1dd20495b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 016/101] fix: stacking of overlapping pulses samples all other
 pulses of the port-clock

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 85d8946..4b6f622 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -177,9 +177,12 @@ def _stack_pulses_by_interval(
     schedule: Schedule, pulses_by_interval: list[PulseInterval]
 ) -> Schedule:
     old_schedulable_keys = set()
+    overlapping_keys = set().union(
+        *(interval.pulse_keys for interval in pulses_by_interval if len(interval.pulse_keys) > 1)
+    )
 
     for interval in pulses_by_interval:
-        if not interval.pulse_keys:
+        if overlapping_keys.isdisjoint(interval.pulse_keys):
             continue
 
         if all(
-- 
2.43.0


From 0750b437093bceed43bf41bcc0d92b1e39d454c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 017/101] fix: duration of stacked square pulses is that of the
 first original pulse

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 4b6f622..6e954a7 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -273,6 +273,8 @@ def _stack_square_pulses(
                 )
             else:
                 combined_pulse.data["pulse_info"][0]["amp"] += pulse_info["amp"]
+    if combined_pulse is not None:
+        combined_pulse._update()
     _create_schedulable(schedule, interval.start_time, combined_pulse)
 
 
-- 
2.43.0


From 2e488eb26de536161c1da494341206402639f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 018/101] fix: order of operations that start when an earlier
 control flow block or schedule ends

---
 quantify_scheduler/backends/qblox/helpers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index f5357fa..350dc38 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -765,7 +765,12 @@ def _get_list_of_operations_for_op_info_creation(
     portclock_mapping: dict[str, str],
 ) -> None:
     if isinstance(operation, ScheduleBase):
-        for schedulable in operation.schedulables.values():
+        # What starts earlier comes first, also where it ends at the same time as something that
+        # was added to the schedule before it starts.
+        for schedulable in sorted(
+            operation.schedulables.values(),
+            key=lambda schedulable: round((time_offset + schedulable["abs_time"]) * 1e9),
+        ):
             abs_time = schedulable["abs_time"]
             inner_operation = operation.operations[schedulable["operation_id"]]
             schedulable_label = schedulable["name"]
-- 
2.43.0


From c437e11e642ae95ad836825c0a66f24b6e242a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 019/101] fix: configured instrument and parameter names of
 external local oscillators are ignored

---
 .../backends/qblox/instrument_compilers.py               | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index ef3631d..5a4641f 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -89,9 +89,10 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
             total_play_time=total_play_time,
             instrument_cfg=instrument_cfg,
         )
-        self.freq_param_name = "frequency"
+        self.instrument_name = instrument_cfg.hardware_description.instrument_name or name
+        self.freq_param_name = instrument_cfg.hardware_description.frequency_param
         self._frequency = instrument_cfg.frequency
-        self.power_param_name = "power"
+        self.power_param_name = instrument_cfg.hardware_description.power_param
         self._power = instrument_cfg.hardware_description.power
 
     @property
@@ -160,8 +161,8 @@ class LocalOscillatorCompiler(compiler_abc.InstrumentCompiler):
         if self._frequency is None:
             return None
         return {
-            f"{self.name}.{self.freq_param_name}": self._frequency,
-            f"{self.name}.{self.power_param_name}": self._power,
+            f"{self.instrument_name}.{self.freq_param_name}": self._frequency,
+            f"{self.instrument_name}.{self.power_param_name}": self._power,
         }
 
 
-- 
2.43.0


From fb9fa524522f2b14ced4302b21bed29a8f212c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 020/101] fix: local oscillator frequencies that contradict
 each other silently override each other

---
 quantify_scheduler/backends/qblox_backend.py | 23 ++++++++++++++------
 quantify_scheduler/backends/types/qblox.py   | 17 ++++++++++-----
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 5e2415f..c8c4786 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -5,6 +5,7 @@
 from __future__ import annotations
 
 import itertools
+import math
 import re
 import warnings
 from abc import ABC
@@ -998,6 +999,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
         )
 
         # Add name to LO hardware description and add frequency to LO compiler config
+        used_los: set[str] = set()
         if self.hardware_options.modulation_frequencies is not None:
             for (
                 portclock,
@@ -1010,9 +1012,21 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     for lo_name, lo_path in cfg.lo_to_path.items():
                         if cfg.portclock_to_path[portclock] == lo_path:
                             lo_config = lo_configs[lo_name]
+                            used_los.add(lo_name)
                             if lo_config.hardware_description.instrument_name is None:
                                 lo_config.hardware_description.instrument_name = lo_name
-                                lo_config.frequency = frequencies.lo_freq
+                            lo_freq = frequencies.lo_freq
+                            if lo_freq is None or math.isnan(lo_freq):
+                                continue
+                            if lo_config.frequency is None:
+                                lo_config.frequency = lo_freq
+                            elif not math.isclose(lo_config.frequency, lo_freq):
+                                raise ValueError(
+                                    f"Attempting to set LO '{lo_name}' to {lo_freq:e} for "
+                                    f"port-clock '{portclock}', while it has previously "
+                                    f"been set to {lo_config.frequency:e} for another "
+                                    f"port-clock on the same LO."
+                                )
 
         # Extract hardware options
         clusters_hardware_options: dict[str, dict[str, dict[str, Any]]] = defaultdict(
@@ -1058,12 +1072,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
             del cluster_configs[cluster_name]
 
         # Delete empty configs of unused local oscillators
-        unused_los = []
-        for instrument_name, cfg in lo_configs.items():
-            if cfg.hardware_description.instrument_name is None:
-                unused_los.append(instrument_name)
-
-        for lo_name in unused_los:
+        for lo_name in set(lo_configs) - used_los:
             del lo_configs[lo_name]
 
         return {**cluster_configs, **lo_configs}
diff --git a/quantify_scheduler/backends/types/qblox.py b/quantify_scheduler/backends/types/qblox.py
index 7bced1e..3929304 100644
--- a/quantify_scheduler/backends/types/qblox.py
+++ b/quantify_scheduler/backends/types/qblox.py
@@ -4,6 +4,7 @@
 
 from __future__ import annotations
 
+import math
 import warnings
 from collections.abc import Callable
 from dataclasses import dataclass
@@ -561,17 +562,23 @@ class RFModuleSettings(AnalogModuleSettings):
             "complex_output_5": "lo5_freq",
         }
 
-        rf_settings = {}
+        rf_settings: dict[str, float] = {}
 
         modulation_frequencies = mapping.hardware_options.modulation_frequencies
         if modulation_frequencies is not None:
             for portclock, path in mapping.portclock_to_path.items():
                 pc_freqs = modulation_frequencies.get(portclock)
                 lo_freq = pc_freqs.lo_freq if pc_freqs is not None else None
-                if (
-                    lo_freq_setting := channel_name_to_lo_freq_setting.get(path.channel_name)
-                ) is not None:
-                    rf_settings[lo_freq_setting] = lo_freq
+                lo_freq_setting = channel_name_to_lo_freq_setting.get(path.channel_name)
+                if lo_freq_setting is None or lo_freq is None or math.isnan(lo_freq):
+                    continue
+                previous_lo_freq = rf_settings.setdefault(lo_freq_setting, lo_freq)
+                if not math.isclose(previous_lo_freq, lo_freq):
+                    raise ValueError(
+                        f"Attempting to set '{lo_freq_setting}' to {lo_freq:e} for "
+                        f"port-clock '{portclock}', while it has previously been set to "
+                        f"{previous_lo_freq:e} for another port-clock on the same output."
+                    )
 
         combined_settings = {**rf_settings, **kwargs}
         return cls(**combined_settings)
-- 
2.43.0


From 7368b5e8791d340ab4024c5bb07bfe0fa8a02032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 021/101] fix: operations added before a block are ordered
 after it only when they start after its end

---
 quantify_scheduler/backends/qblox/helpers.py | 29 ++++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 350dc38..96729bc 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -41,6 +41,7 @@ if TYPE_CHECKING:
         FullSchedulableLabel,
         SchedulableLabelToAcquisitionIndex,
     )
+    from quantify_scheduler.schedules.schedule import Schedulable
 
 
 def generate_waveform_data(
@@ -757,6 +758,27 @@ def _get_control_flow_end(
     return end_operation
 
 
+def _blocks_before_what_follows_them(
+    schedule: ScheduleBase, time_offset: float
+) -> list[Schedulable]:
+    """
+    The schedulables in the order in which they were added, except that a control flow block or
+    subschedule comes before everything that starts at or after its end.
+    """
+    ordered: list[Schedulable] = []
+    start_times: list[int] = []
+    for schedulable in schedule.schedulables.values():
+        start_time = time_offset + schedulable["abs_time"]
+        index = len(ordered)
+        operation = schedule.operations[schedulable["operation_id"]]
+        if isinstance(operation, (ScheduleBase, ControlFlowOperation)) and operation.duration:
+            end_time = round((start_time + operation.duration) * 1e9)
+            index = next((i for i, start in enumerate(start_times) if start >= end_time), index)
+        ordered.insert(index, schedulable)
+        start_times.insert(index, round(start_time * 1e9))
+    return ordered
+
+
 def _get_list_of_operations_for_op_info_creation(
     operation: Operation | Schedule,
     time_offset: float,
@@ -765,12 +787,7 @@ def _get_list_of_operations_for_op_info_creation(
     portclock_mapping: dict[str, str],
 ) -> None:
     if isinstance(operation, ScheduleBase):
-        # What starts earlier comes first, also where it ends at the same time as something that
-        # was added to the schedule before it starts.
-        for schedulable in sorted(
-            operation.schedulables.values(),
-            key=lambda schedulable: round((time_offset + schedulable["abs_time"]) * 1e9),
-        ):
+        for schedulable in _blocks_before_what_follows_them(operation, time_offset):
             abs_time = schedulable["abs_time"]
             inner_operation = operation.operations[schedulable["operation_id"]]
             schedulable_label = schedulable["name"]
-- 
2.43.0


From eab1f69f7688982dceb692372d7add9bff206894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 022/101] fix: frequency changes of downconverted signals have
 the wrong sign

---
 quantify_scheduler/backends/qblox/analog.py          |  8 ++++++++
 .../backends/qblox/operation_handling/virtual.py     | 12 +++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 64ccb86..725de28 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -425,12 +425,20 @@ class AnalogSequencerCompiler(SequencerCompiler):
         self._assert_enough_time_between_freq_phase_updates(self._get_ordered_operations())
         super().prepare()
 
+    @property
+    def _is_downconverted(self) -> bool:
+        """Whether the signal (local oscillator plus NCO) is downconverted to the clock."""
+        return self.downconverter_freq is not None and (
+            self.associated_ext_lo is not None or isinstance(self.parent, RFModuleCompiler)
+        )
+
     def _update_set_clock_frequency_operations(self) -> None:
         for op_strat in self.op_strategies:
             if op_strat.operation_info.name == SetClockFrequency.__name__:
                 op_strat.operation_info.data.update(
                     {
                         "interm_freq_old": self.frequency,
+                        "downconverted": self._is_downconverted,
                     }
                 )
 
diff --git a/quantify_scheduler/backends/qblox/operation_handling/virtual.py b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
index fd13b5c..7f8899b 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/virtual.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/virtual.py
@@ -145,11 +145,13 @@ class NcoSetClockFrequencyStrategy(IdleStrategy):
                 f"the hardware config."
             )
 
-        interm_freq_new = (
-            (interm_freq_old + clock_freq_new - clock_freq_old)
-            if (clock_freq_new is not None)
-            else interm_freq_old
-        )
+        if clock_freq_new is None:
+            interm_freq_new = interm_freq_old
+        elif self.operation_info.data.get("downconverted"):
+            # f_out = f_downconverter - f_clock
+            interm_freq_new = interm_freq_old - (clock_freq_new - clock_freq_old)
+        else:
+            interm_freq_new = interm_freq_old + clock_freq_new - clock_freq_old
 
         frequency_args = helpers.get_nco_set_frequency_arguments(interm_freq_new)
         qasm_program.emit(
-- 
2.43.0


From a25ee96ebe3fbcda3c78e2afba77b252928fc80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 023/101] fix: frequency changes of a clock used by several
 sequencers use the intermediate frequency of one of them

---
 quantify_scheduler/backends/qblox/helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 96729bc..7d2af3d 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -881,8 +881,11 @@ def _assign_pulse_info_to_devices(
             for map_portclock, device_name in portclock_mapping.items():
                 map_port, map_clock = map_portclock.split("-")
                 if (combined_data.name == "LatchReset") or map_clock == clock:
+                    # A copy of the data, as each sequencer adds its own information to it.
                     device_compilers[device_name].add_op_info(
-                        port=map_port, clock=map_clock, op_info=combined_data
+                        port=map_port,
+                        clock=map_clock,
+                        op_info=dataclasses.replace(combined_data, data=pulse_data.copy()),
                     )
         else:
             if portclock not in portclock_mapping:
-- 
2.43.0


From 2d63893bc2cc2d231217c20fb5cfd01a268e03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:19 +0000
Subject: [PATCH 024/101] fix: reject acquisition weights below -1

abs(max(weights)) ignored negative out-of-range values
---
 .../backends/qblox/operation_handling/acquisitions.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index de745bc..28160f9 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -239,9 +239,9 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if abs(max(waveform_data)) > 1:
+            if np.max(np.abs(waveform_data)) > 1:
                 first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if x > 1
+                    (i, x) for i, x in enumerate(waveform_data) if abs(x) > 1
                 )
                 total = sum(np.abs(waveform_data) > 1)
                 raise ValueError(
-- 
2.43.0


From 210f46aa59ef4442eb73731edc300128e8c6dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 025/101] fix: count repetitions when checking for free Qblox
 acquisition bins

The capacity check compared the number of acquisition indices with the
number of free bins, although indices times repetitions are reserved.
---
 .../backends/qblox/qblox_acq_index_manager.py               | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 089b65f..5f904ea 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -255,7 +255,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
@@ -432,7 +433,8 @@ class QbloxAcquisitionIndexManager:
         requested_number_of_indices: int = len(acq_indices)
 
         if (qblox_acq_index is None) or (
-            requested_number_of_indices > self._number_of_free_qblox_bins(qblox_acq_index)
+            requested_number_of_indices * repetitions
+            > self._number_of_free_qblox_bins(qblox_acq_index)
         ):
             raise IndexError(
                 f"Out of Qblox acquisition bins. "
-- 
2.43.0


From 187b2044b4a9c1abf03b525dbe3acc86ec8bb16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 026/101] fix: accept full-scale acquisition weights despite
 rounding

Interpolating weights that contain 1.0 can give 1.0000000000000002, which was
refused as out of range.
---
 .../backends/qblox/operation_handling/acquisitions.py     | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index 28160f9..f017b3c 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -239,11 +239,13 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 sampling_rate=constants.SAMPLING_RATE,
                 duration=duration,
             )
-            if np.max(np.abs(waveform_data)) > 1:
+            # Interpolation may exceed full scale by a rounding error.
+            max_amplitude = 1 + 1e-9
+            if np.max(np.abs(waveform_data)) > max_amplitude:
                 first_bad_idx, bad_value = next(
-                    (i, x) for i, x in enumerate(waveform_data) if abs(x) > 1
+                    (i, x) for i, x in enumerate(waveform_data) if abs(x) > max_amplitude
                 )
-                total = sum(np.abs(waveform_data) > 1)
+                total = sum(np.abs(waveform_data) > max_amplitude)
                 raise ValueError(
                     f"Acquisition weights with an amplitude greater than 1 are not "
                     f"supported by hardware. Acquisition weights array {idx} contains "
-- 
2.43.0


From 876a6177e72f4187352556de14b43c415bd10398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 027/101] fix: merge appended data of an acquisition channel
 used on several ports

---
 quantify_scheduler/instrument_coordinator/utility.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index fb29b13..2f53947 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -157,11 +157,10 @@ def check_already_existing_acquisition(
         def mask_func(x: float, y: float) -> int:
             return 0 if np.isnan(x) or np.isnan(y) else 1
 
-        if len(common_0) and len(common_1):
+        if common_0.size and common_1.size:
             conflict_mask = xarray.apply_ufunc(mask_func, common_0, common_1, vectorize=True)
-            for conflict in conflict_mask:
-                if conflict.values != [1]:
-                    continue
+            for position in np.argwhere(conflict_mask.values):
+                conflict = conflict_mask[tuple(position)]
                 conflicting_coords = [("acq_channel", acq_channel)]
                 conflicting_coords += [(dim, conflict[dim].values) for dim in conflict.coords]
                 coords_str = [f"{dim}={coord}" for dim, coord in conflicting_coords]
-- 
2.43.0


From 098e03da050c9632c967a487ab6da00053811364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 028/101] fix: give every entry of a trigger count distribution
 the coords of its acquisition

---
 quantify_scheduler/instrument_coordinator/utility.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index 2f53947..20a93e0 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -233,6 +233,9 @@ def add_acquisition_coords_nonbinned(
     data_array_coords = {}
 
     for key, value in coords.items():
-        data_array_coords[key] = (acq_index_dim_name, [value])
+        data_array_coords[key] = (
+            acq_index_dim_name,
+            [value] * data_array.sizes[acq_index_dim_name],
+        )
 
     data_array.coords.update(data_array_coords)
-- 
2.43.0


From 070332e442b95b8853f93b8661b719ac1d2aa9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 029/101] fix: mixed acquisition protocols on a port-clock of a
 timetagging module

---
 quantify_scheduler/backends/qblox/timetag.py | 40 ++++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/timetag.py b/quantify_scheduler/backends/qblox/timetag.py
index 8f3e511..8f403a3 100644
--- a/quantify_scheduler/backends/qblox/timetag.py
+++ b/quantify_scheduler/backends/qblox/timetag.py
@@ -304,28 +304,41 @@ class TimetagSequencerCompiler(SequencerCompiler):
             self._settings.scope_trace_type = TimetagTraceType.SCOPE
             # Trace acquisitions have bin mode FIRST, meaning only the first acquisition
             # has any effect. Therefore we take the duration from the first acquisition.
-            self._settings.trace_acq_duration = round(acquisitions[0].operation_info.duration * 1e9)
+            first_trace = next(
+                acq for acq in acquisitions if acq.operation_info.data["protocol"] == "Trace"
+            )
+            self._settings.trace_acq_duration = round(first_trace.operation_info.duration * 1e9)
         elif "TimetagTrace" in unique_protocols:
             self._settings.scope_trace_type = TimetagTraceType.TIMETAG
 
-        if ("Timetag" in unique_protocols) or ("TimetagTrace" in unique_protocols):
+        # The settings below only concern the acquisitions of the protocol(s) that use them.
+        def _acquisitions_of(*protocols: str) -> list[IOperationStrategy]:
+            return [acq for acq in acquisitions if acq.operation_info.data["protocol"] in protocols]
+
+        if timetag_acquisitions := _acquisitions_of("Timetag", "TimetagTrace"):
             self._settings.time_source = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_source"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_source"] for acq in timetag_acquisitions),
                 setting_name="time_source",
             )
             self._settings.time_ref = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref"] for acq in acquisitions),
+                values=(acq.operation_info.data["time_ref"] for acq in timetag_acquisitions),
                 setting_name="time_ref",
             )
             self._settings.time_ref_channel = self._get_unique_value_or_raise(
-                values=(acq.operation_info.data["time_ref_channel"] for acq in acquisitions),
+                values=(
+                    acq.operation_info.data["time_ref_channel"] for acq in timetag_acquisitions
+                ),
                 setting_name="time_ref_channel",
             )
 
         if "ThresholdedTriggerCount" in unique_protocols:
-            self._prepare_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_thresholded_trigger_count_settings(
+                _acquisitions_of("ThresholdedTriggerCount")
+            )
         elif "DualThresholdedTriggerCount" in unique_protocols:
-            self._prepare_dual_thresholded_trigger_count_settings(acquisitions)
+            self._prepare_dual_thresholded_trigger_count_settings(
+                _acquisitions_of("DualThresholdedTriggerCount")
+            )
 
     def _prepare_thresholded_trigger_count_settings(
         self, acquisitions: list[IOperationStrategy]
@@ -347,12 +360,15 @@ class TimetagSequencerCompiler(SequencerCompiler):
         # We ignore None because it does not interfere with other acquisitions/conditionals.
         # This is because a LatchReset is used for every thresholded acq with a not-None
         # address.
+        addresses = {
+            acq.operation_info.data.get("feedback_trigger_address") for acq in acquisitions
+        } - {None}
+        if len(addresses) == 0:
+            # No acquisition sends a trigger.
+            self._settings.thresholded_acq_trigger_write_en = False
+            return
         address = self._get_unique_value_or_raise(
-            values=(
-                acq.operation_info.data["feedback_trigger_address"]
-                for acq in acquisitions
-                if acq.operation_info.data["feedback_trigger_address"] is not None
-            ),
+            values=addresses,
             setting_name="feedback_trigger_address",
         )
         self._settings.thresholded_acq_trigger_write_en = True
-- 
2.43.0


From f0c2d36314a5ab4d116982f06ec5b5ab5903b731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 030/101] fix: timetag traces of several acquisitions in
 repeated schedules are given to the wrong acquisition

---
 .../instrument_coordinator/components/qblox.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 2170b8a..d9b17fb 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2635,10 +2635,18 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
         qblox_acq_index = next(iter(seq_channel_hardware_mapping.values())).index
 
         qblox_acq_name = self._qblox_acq_index_to_qblox_acq_name(qblox_acq_index)
+        timedeltas = hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
+            "timedelta"
+        ]
         scope_data = self.instrument.io_channels[seq_idx].get_scope_data()
+        # The windows in the scope data are in the order in which they were executed, which
+        # means per repetition. The bins are not: all repetitions of an acquisition are
+        # stored next to each other.
         timetag_traces = self._split_timetag_trace_data_per_window(
-            timetags=hardware_retrieved_acquisitions[qblox_acq_name]["acquisition"]["bins"][
-                "timedelta"
+            timetags=[
+                timedeltas[index_bin.bin + repetition * index_bin.stride]
+                for repetition in range(self._repetitions)
+                for index_bin in seq_channel_hardware_mapping.values()
             ],
             scope_data=scope_data,
         )
@@ -2657,11 +2665,9 @@ class _QTMAcquisitionManager(_AcquisitionManagerBase):
         rect_array[:] = np.nan
 
         for repetition in range(self._repetitions):
-            for i, (_acq_index, qblox_acq_index_bin) in enumerate(
-                seq_channel_hardware_mapping.items()
-            ):
+            for i in range(len(seq_channel_hardware_mapping)):
                 timetag_traces_bin = timetag_traces[
-                    qblox_acq_index_bin.bin + repetition * qblox_acq_index_bin.stride
+                    repetition * len(seq_channel_hardware_mapping) + i
                 ]
                 rect_array[repetition][i][0 : len(timetag_traces_bin)] = timetag_traces_bin
         acq_index_dim_name = self._acq_channels_data[acq_channel].acq_index_dim_name
-- 
2.43.0


From 22443e986d72f3b999a7cfa96c93d2c43ce0307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 031/101] fix: acquisition weights at 1 GSa/s refused due to
 floating point errors

---
 .../backends/qblox/operation_handling/acquisitions.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
index f017b3c..004de70 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/acquisitions.py
@@ -226,7 +226,8 @@ class WeightedAcquisitionStrategy(AcquisitionStrategyPartial):
                 )
             if "interpolated" in parameterized_waveform["wf_func"]:
                 weights_sampling_rate = len(parameterized_waveform["t_samples"]) / duration
-                if weights_sampling_rate > constants.SAMPLING_RATE:
+                # (The division can exceed the limit by a rounding error.)
+                if weights_sampling_rate > constants.SAMPLING_RATE * (1 + 1e-9):
                     raise ValueError(
                         f"Qblox hardware supports a sampling rate up to "
                         f"{constants.SAMPLING_RATE * 1e-9:0.1e} GHz, but a sampling "
-- 
2.43.0


From e5c85b25ba38363eca17f97850a191096f94d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:14 +0000
Subject: [PATCH 032/101] fix: weighted acquisitions refused when the bin mode
 is given as a string

---
 quantify_scheduler/operations/acquisition_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/acquisition_library.py b/quantify_scheduler/operations/acquisition_library.py
index e2ef5bd..e557a94 100644
--- a/quantify_scheduler/operations/acquisition_library.py
+++ b/quantify_scheduler/operations/acquisition_library.py
@@ -643,7 +643,7 @@ class NumericalSeparatedWeightedIntegration(WeightedIntegratedSeparated):
         acq_channel = acq_info["acq_channel"]
         coords = acq_info["coords"]
         acq_index = acq_info["acq_index"]
-        bin_mode = acq_info["bin_mode"].value
+        bin_mode = BinMode(acq_info["bin_mode"]).value
         phase = acq_info["phase"]
         t0 = acq_info["t0"]
 
-- 
2.43.0


From 52dd4de038e865dafe53742d7c4a0cc7a42bd340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 033/101] fix: software distortion correction of a pulse used
 several times is applied several times

---
 quantify_scheduler/backends/corrections.py | 44 ++++++++++++++++++++--
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 533b6cd..9617c6d 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -230,17 +230,53 @@ def apply_software_distortion_corrections(
         when clipping values are supplied but not two values exactly, min and max.
 
     """
+    return _apply_software_distortion_corrections(operation, distortion_corrections, {})
+
+
+def _apply_software_distortion_corrections(
+    operation: Operation | Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple[Operation | Schedule, Operation | None]],
+) -> Operation | None:
+    """
+    Apply distortion corrections to an operation that is possibly used several times.
+
+    Parameters
+    ----------
+    operation
+        The operation that contains operations that are to be distortion corrected.
+    distortion_corrections
+        The distortion_corrections configuration of the setup.
+    processed
+        The operations that have been processed before by id, with their replacements.
+
+    """
+    if id(operation) not in processed:
+        processed[id(operation)] = (
+            operation,
+            _apply_software_distortion_corrections_once(
+                operation, distortion_corrections, processed
+            ),
+        )
+    return processed[id(operation)][1]
+
+
+def _apply_software_distortion_corrections_once(
+    operation: Operation | Schedule,
+    distortion_corrections: dict,
+    processed: dict[int, tuple[Operation | Schedule, Operation | None]],
+) -> Operation | None:
     if isinstance(operation, ScheduleBase):
         for inner_operation_id in operation.operations:
-            replacing_operation = apply_software_distortion_corrections(
-                operation.operations[inner_operation_id], distortion_corrections
+            replacing_operation = _apply_software_distortion_corrections(
+                operation.operations[inner_operation_id], distortion_corrections, processed
             )
             if replacing_operation is not None:
                 operation.operations[inner_operation_id] = replacing_operation
         return None
     elif isinstance(operation, ControlFlowOperation):
-        replacing_operation = apply_software_distortion_corrections(
-            operation.body, distortion_corrections
+        replacing_operation = _apply_software_distortion_corrections(
+            operation.body, distortion_corrections, processed
         )
         if replacing_operation is not None:
             operation.body = replacing_operation
-- 
2.43.0


From c45ec2af71441c8caa91f965aa97b00aff176aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 034/101] fix: crosstalk compensation of repeated pulses and of
 pulses in control flow

---
 .../backends/qblox/crosstalk_compensation.py  | 162 ++++++++++--------
 1 file changed, 94 insertions(+), 68 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index 472887e..f3e8a9b 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -13,6 +13,7 @@ if TYPE_CHECKING:
 
 import numpy as np
 
+from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
 from quantify_scheduler.schedules import Schedulable, Schedule
 
 
@@ -49,22 +50,58 @@ def crosstalk_compensation(
         hardware_options.crosstalk, port_clock_list
     )
 
-    for schedulable in list(schedule.schedulables.values()):
-        operation = schedule.operations[schedulable["operation_id"]]
+    return _compensate_schedule(schedule, port_clock_list, compensation_matrix)
 
-        if isinstance(operation, Schedule):
-            # Recursively apply compensation to nested schedules
-            schedule.operations[schedulable["operation_id"]] = crosstalk_compensation(
-                operation, config
-            )
-        elif is_pulse(operation):
-            _apply_compensation_to_operation(
-                schedule, operation, schedulable, port_clock_list, compensation_matrix
-            )
+
+def _compensate_schedule(
+    schedule: Schedule, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> Schedule:
+    # Operations can be used by several schedulables, but are to be compensated once.
+    compensation_operations: dict[str, dict[int, str]] = {}
+
+    for name, schedulable in list(schedule.schedulables.items()):
+        operation_id = schedulable["operation_id"]
+
+        if operation_id not in compensation_operations:
+            compensation_operations[operation_id] = {}
+            # Do not change operations that are also used elsewhere.
+            operation = deepcopy(schedule.operations[operation_id])
+            schedule.operations[operation_id] = operation
+
+            if isinstance(operation, Schedule):
+                # Recursively apply compensation to nested schedules
+                _compensate_schedule(operation, port_clock_list, compensation_matrix)
+            elif isinstance(operation, ControlFlowOperation):
+                _compensate_control_flow(operation, port_clock_list, compensation_matrix)
+            elif is_pulse(operation):
+                compensation_operations[operation_id] = _apply_compensation_to_operation(
+                    schedule, operation, operation_id, port_clock_list, compensation_matrix
+                )
+
+        for index, compensation_id in compensation_operations[operation_id].items():
+            compensation_schedulable = deepcopy(schedulable)
+            compensation_schedulable["operation_id"] = compensation_id
+            schedule.schedulables[f"{name}_compensation_{index}"] = compensation_schedulable
 
     return schedule
 
 
+def _compensate_control_flow(
+    operation: ControlFlowOperation, port_clock_list: list[str], compensation_matrix: np.ndarray
+) -> None:
+    body = operation.body
+    if isinstance(body, ControlFlowOperation):
+        _compensate_control_flow(body, port_clock_list, compensation_matrix)
+        return
+    if not isinstance(body, Schedule):
+        body_schedule = Schedule("")
+        schedulable: Schedulable = body_schedule.add(body)
+        schedulable["abs_time"] = 0
+        body_schedule["duration"] = body.duration
+        body = body_schedule
+    operation.body = _compensate_schedule(body, port_clock_list, compensation_matrix)
+
+
 def _get_unique_port_clocks(crosstalk: dict[str, dict[str, float]]) -> list[str]:
     port_clocks = set(crosstalk.keys())
     for connections in crosstalk.values():
@@ -117,62 +154,51 @@ def is_pulse(operation: Operation) -> bool:
 def _apply_compensation_to_operation(
     schedule: Schedule,
     operation: Operation,
-    schedulable: Schedulable,
+    operation_id: str,
     port_clock_list: list[str],
     compensation_matrix: np.ndarray,
-) -> None:
-    port_clock = (
-        f"{operation.data['pulse_info'][0]['port']}-{operation.data['pulse_info'][0]['clock']}"
-    )
-    port_clock_index = port_clock_list.index(port_clock)
-    compensation_row = compensation_matrix[port_clock_index]
-
-    # Add compensation pulses to port clocks that are affected by crosstalk
-    for i, compensation_value in enumerate(compensation_row):
-        if compensation_value != 0 and i != port_clock_index:
-            _add_compensation_operation(
-                schedule,
-                operation,
-                schedulable,
-                port_clock_list[i],
-                compensation_value,
-                i,
-            )
-
-    # Adjust all params that have amp in them
-    for key in operation.data["pulse_info"][0]:
-        if "amp" in key:
-            operation.data["pulse_info"][0][key] *= compensation_row[port_clock_index]
-
-
-def _add_compensation_operation(
-    schedule: Schedule,
-    original_operation: Operation,
-    original_schedulable: Schedulable,
-    target_port_clock: str,
-    compensation_value: float,
-    index: int,
-) -> None:
-    compensation_op = deepcopy(original_operation)
-    target_port, target_clock = target_port_clock.split("-")
-
-    # amp of compensation operation is product of the original amplitude and compensation value.
-    compensation_op.data["pulse_info"][0].update(
-        {
-            "port": target_port,
-            "clock": target_clock,
-        }
-    )
-    for key in compensation_op.data["pulse_info"][0]:
-        if "amp" in key:
-            compensation_op.data["pulse_info"][0][key] = (
-                original_operation.data["pulse_info"][0][key] * compensation_value
-            )
-
-    schedule.operations[compensation_op.hash] = compensation_op
-
-    compensation_schedulable = deepcopy(original_schedulable)
-    compensation_schedulable["operation_id"] = compensation_op.hash
-    schedule.schedulables[f"{original_operation.hash}_compensation_{index}"] = (
-        compensation_schedulable
-    )
+) -> dict[int, str]:
+    """
+    Adjust the amplitude of an operation, and add its compensation operations.
+
+    Returns
+    -------
+    :
+        The ids of the compensation operations, by index of the port-clock.
+
+    """
+    compensation_infos: dict[int, list[dict]] = {}
+    for pulse_info in operation.data["pulse_info"]:
+        port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
+        if pulse_info["wf_func"] is None or port_clock not in port_clock_list:
+            continue
+        port_clock_index = port_clock_list.index(port_clock)
+        compensation_row = compensation_matrix[port_clock_index]
+
+        # Add compensation pulses to port clocks that are affected by crosstalk
+        for i, compensation_value in enumerate(compensation_row):
+            if compensation_value != 0 and i != port_clock_index:
+                compensation_info = deepcopy(pulse_info)
+                target_port, target_clock = port_clock_list[i].split("-")
+                compensation_info.update({"port": target_port, "clock": target_clock})
+                _scale_amplitude(compensation_info, compensation_value)
+                compensation_infos.setdefault(i, []).append(compensation_info)
+
+        _scale_amplitude(pulse_info, compensation_row[port_clock_index])
+
+    compensation_ids = {}
+    for i, pulse_infos in compensation_infos.items():
+        compensation_op = deepcopy(operation)
+        compensation_op.data["pulse_info"] = pulse_infos
+        compensation_op.data["acquisition_info"] = []
+        compensation_ids[i] = f"{operation_id}_compensation_{i}"
+        schedule.operations[compensation_ids[i]] = compensation_op
+    return compensation_ids
+
+
+def _scale_amplitude(pulse_info: dict, factor: complex) -> None:
+    # Adjust all params that have amp in them, and the offset of ramp pulses.
+    for key, value in pulse_info.items():
+        if ("amp" in key and key != "t_samples") or key == "offset":
+            scaled = np.multiply(value, factor)
+            pulse_info[key] = scaled.tolist() if isinstance(value, list) else scaled
-- 
2.43.0


From 3e5ba23313d46a5f6dea01568cc3870cb64fc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 035/101] fix: overlapping pulses with ends 1 ns apart are
 refused or extended

---
 quantify_scheduler/backends/qblox/stack_pulses.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/stack_pulses.py b/quantify_scheduler/backends/qblox/stack_pulses.py
index 6e954a7..9cbd383 100644
--- a/quantify_scheduler/backends/qblox/stack_pulses.py
+++ b/quantify_scheduler/backends/qblox/stack_pulses.py
@@ -228,12 +228,6 @@ def _stack_arbitrary_pulses(
             )
             end_idx = start_idx + num_samples
 
-            if end_idx == len(waveform) - 1:
-                # Including the last sample makes waveform slice longer than combined_waveform;
-                # append zero to combined_waveform to match lengths and prevent shape mismatch.
-                end_idx += 1
-                combined_waveform = np.append(combined_waveform, 0)
-
             combined_waveform = np.add(combined_waveform, waveform[start_idx:end_idx])
             if port is None and clock is None:
                 port, clock = pulse_info.get("port"), pulse_info.get("clock")
-- 
2.43.0


From 9ce9c8b641253a442bf0e8bd7ecd78e4105875cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 036/101] fix: merging of Rz gates changes other uses of the
 gates and gates at other times

---
 quantify_scheduler/compilation.py | 43 ++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 751a57f..50ff3d5 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -437,6 +437,8 @@ def _merge_rz_gates(
             )
 
         last_op = None
+        last_key = merge_key = ""
+        merged_ids = set()
         # Copy list so we can modify it while iterating
         for inner_sched_key in list(op.schedulables):
             inner_sched = op.schedulables[inner_sched_key]
@@ -447,16 +449,35 @@ def _merge_rz_gates(
                 isinstance(inner_op, Rz)
                 and isinstance(last_op, Rz)
                 and inner_op.qubit == last_op.qubit
+                and inner_op.data["gate_info"]["device_overrides"]
+                == last_op.data["gate_info"]["device_overrides"]
+                and _is_directly_after(
+                    op, last_key, inner_sched_key, _determine_scheduling_strategy(config)
+                )
             ):
-                last_op.theta += inner_op.theta
+                # The operations can also be used by other schedulables, so leave them as they are.
+                theta = last_op.theta + inner_op.theta
+                last_op = Rz(theta, last_op.qubit, **last_op.data["gate_info"]["device_overrides"])
+                last_op.theta = theta
+                last_op._update()
                 noop = IdlePulse(0)
-                noop_id = noop.hash
-                op.operations[noop_id] = noop
-                inner_sched["operation_id"] = noop_id
+                for schedulable, new_op in (
+                    (op.schedulables[merge_key], last_op),
+                    (inner_sched, noop),
+                ):
+                    merged_ids.add(schedulable["operation_id"])
+                    op.operations[new_op.hash] = new_op
+                    schedulable["operation_id"] = new_op.hash
+                last_key = inner_sched_key
                 continue
 
             # Record last
             last_op = inner_op
+            last_key = merge_key = inner_sched_key
+
+        used_ids = {schedulable["operation_id"] for schedulable in op.schedulables.values()}
+        for merged_id in merged_ids - used_ids:
+            del op.operations[merged_id]
 
         return op
     elif isinstance(op, ControlFlowOperation):
@@ -469,6 +490,20 @@ def _merge_rz_gates(
         return op
 
 
+def _is_directly_after(
+    schedule: Schedule, first_key: str, second_key: str, strategy: SchedulingStrategy
+) -> bool:
+    """Whether the timing constraints put one schedulable directly after another."""
+    if strategy == SchedulingStrategy.ASAP:
+        key, reference_key = second_key, first_key
+    else:
+        key, reference_key = first_key, second_key
+    constraints = schedule.schedulables[key]["timing_constraints"]
+    return len(constraints) == 1 and (
+        constraints[0].ref_schedulable in (None, reference_key) and constraints[0].rel_time == 0
+    )
+
+
 def validate_config(config: dict, scheme_fn: str) -> bool:
     """
     Validate a configuration using a schema.
-- 
2.43.0


From 110273e4d588b0a6e61cebb9b5fa25480a3f4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 037/101] fix: wait correctly in the else branch of
 conditionals with loops, acquisitions or pulses of several instructions

---
 .../backends/qblox/compiler_abc.py            |  1 -
 .../backends/qblox/conditional.py             | 19 ---------
 .../backends/qblox/qasm_program.py            | 40 ++++++++++++-------
 3 files changed, 25 insertions(+), 35 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 9c89e20..8391b1c 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -724,7 +724,6 @@ class SequencerCompiler(ABC):
             elif isinstance(operation, ControlFlowReturnStrategy):
                 return self.ParseOperationStatus.EXITED_CONTROL_FLOW
             else:
-                qasm.conditional_manager.update(operation)
                 self._insert_qasm(operation, qasm)
 
         return self.ParseOperationStatus.EXITED_CONTROL_FLOW
diff --git a/quantify_scheduler/backends/qblox/conditional.py b/quantify_scheduler/backends/qblox/conditional.py
index 7c533ec..45567af 100644
--- a/quantify_scheduler/backends/qblox/conditional.py
+++ b/quantify_scheduler/backends/qblox/conditional.py
@@ -11,10 +11,6 @@ from typing import TYPE_CHECKING
 if TYPE_CHECKING:
     from collections.abc import Sequence
 
-    from quantify_scheduler.backends.qblox.operation_handling.base import (
-        IOperationStrategy,
-    )
-
 
 @dataclass
 class ConditionalManager:
@@ -29,21 +25,6 @@ class ConditionalManager:
     end_time: int = 0
     """End time of conditional playback."""
 
-    def update(self, operation: IOperationStrategy) -> None:
-        """
-        Update the conditional manager.
-
-        Parameters
-        ----------
-        operation : IOperationStrategy
-            Operation whose information is used to update the conditional manager.
-        time :
-            Timing
-
-        """
-        if operation.operation_info.is_real_time_io_operation:
-            self.num_real_time_instructions += 1
-
     def reset(self) -> None:
         """Reset the conditional manager."""
         self.num_real_time_instructions = 0
diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 164c0ea..f444bcc 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -35,6 +35,18 @@ if TYPE_CHECKING:
         StaticHardwareProperties,
     )
 
+_REAL_TIME_INSTRUCTIONS = (
+    q1asm_instructions.WAIT,
+    q1asm_instructions.UPDATE_PARAMETERS,
+    q1asm_instructions.PLAY,
+    q1asm_instructions.ACQUIRE,
+    q1asm_instructions.ACQUIRE_WEIGHED,
+    q1asm_instructions.ACQUIRE_TTL,
+    q1asm_instructions.ACQUIRE_TIMETAGS,
+    q1asm_instructions.FEEDBACK_TRIGGERS_RST,
+)
+"""Instructions that take time in the real-time pipeline."""
+
 
 class QASMProgram:
     """
@@ -166,6 +178,8 @@ class QASMProgram:
 
         """
         self.instructions.append(self.get_instruction_as_list(*args, **kwargs))
+        if args and args[0] in _REAL_TIME_INSTRUCTIONS:
+            self.conditional_manager.num_real_time_instructions += 1
         return self.instructions[-1]
 
     # --- QOL functions -----
@@ -249,7 +263,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
             else:
                 for _ in range(repetitions):
                     self.emit(
@@ -259,7 +272,6 @@ class QASMProgram:
                     )
                     if count_as_elapsed_time:
                         self.elapsed_time += constants.IMMEDIATE_MAX_WAIT_TIME
-                    self.conditional_manager.num_real_time_instructions += 1
         else:
             time_left = int(wait_time)
 
@@ -275,7 +287,6 @@ class QASMProgram:
             )
             if count_as_elapsed_time:
                 self.elapsed_time += time_left
-            self.conditional_manager.num_real_time_instructions += 1
 
     def _extend_last_real_time_instruction(self, duration: int) -> None:
         """
@@ -293,16 +304,6 @@ class QASMProgram:
             If there is no real-time instruction directly before this point in the program.
 
         """
-        real_time_instructions = (
-            q1asm_instructions.WAIT,
-            q1asm_instructions.UPDATE_PARAMETERS,
-            q1asm_instructions.PLAY,
-            q1asm_instructions.ACQUIRE,
-            q1asm_instructions.ACQUIRE_WEIGHED,
-            q1asm_instructions.ACQUIRE_TTL,
-            q1asm_instructions.ACQUIRE_TIMETAGS,
-            q1asm_instructions.FEEDBACK_TRIGGERS_RST,
-        )
         control_instructions = (
             q1asm_instructions.LOOP,
             q1asm_instructions.JUMP,
@@ -312,12 +313,12 @@ class QASMProgram:
         )
         for instruction in reversed(self.instructions):
             label, name, arguments, _ = instruction
-            if name in real_time_instructions:
+            if name in _REAL_TIME_INSTRUCTIONS:
                 *others, old_duration = str(arguments).split(",")
                 if old_duration.isdigit():
                     instruction[2] = ",".join([*others, str(int(old_duration) + duration)])
                     return
-            if label or name in (*real_time_instructions, *control_instructions):
+            if label or name in (*_REAL_TIME_INSTRUCTIONS, *control_instructions):
                 break
         raise ValueError(
             f"Invalid wait time. Attempting to wait for {duration} ns at t={self.elapsed_time} ns, "
@@ -618,8 +619,17 @@ class QASMProgram:
         self.emit(q1asm_instructions.MOVE, repetitions, register, comment=comment)
         self.emit(q1asm_instructions.NEW_LINE, label=label)
 
+        manager = self.conditional_manager
+        num_real_time_instructions = manager.num_real_time_instructions
+
         yield register
 
+        if self._lock_conditional:
+            # In a conditional, all iterations of the loop count.
+            manager.num_real_time_instructions = num_real_time_instructions + repetitions * (
+                manager.num_real_time_instructions - num_real_time_instructions
+            )
+
         self.emit(q1asm_instructions.LOOP, register, f"@{label}")
         self.register_manager.free_register(register)
 
-- 
2.43.0


From d1f80967160b7d35fbb9fe5f19631f9f41bc3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 038/101] fix: allow conditional bodies longer than 65 us

---
 .../backends/qblox/qasm_program.py            | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index f444bcc..a7891ed 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -525,6 +525,7 @@ class QASMProgram:
 
         # This instruction will be replaced when the context manager exits the
         # conditional block.
+        set_cond_index = len(self.instructions)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
             int(trigger_condition.enable),
@@ -541,6 +542,24 @@ class QASMProgram:
         # and add a stop conditional playback and
         # replace the initial FEEDBACK_SET_COND instruction.
         self.conditional_manager.end_time = self.elapsed_time
+        num_real_time_instructions = self.conditional_manager.num_real_time_instructions
+        total_duration = (
+            self.conditional_manager.duration + constants.MIN_TIME_BETWEEN_OPERATIONS
+        )
+        else_duration = constants.MIN_TIME_BETWEEN_OPERATIONS
+        # The remaining time must fit in a single wait instruction, because the duration of the
+        # second block in case of a trigger is 4 ns per instruction.
+        excess = total_duration - constants.IMMEDIATE_MAX_WAIT_TIME
+        if excess > else_duration * num_real_time_instructions:
+            else_duration = -(-excess // num_real_time_instructions)
+            self.instructions[set_cond_index] = self.get_instruction_as_list(
+                q1asm_instructions.FEEDBACK_SET_COND,
+                int(trigger_condition.enable),
+                trigger_condition.mask,
+                trigger_condition.operator.value,
+                else_duration,
+                comment="start conditional playback",
+            )
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
             int(trigger_condition.enable),
@@ -550,13 +569,10 @@ class QASMProgram:
             comment="else wait",
         )
         # autowait now adds an additional duration to elapsed time that we need to compensate.
-        duration = (
-            self.conditional_manager.duration
-            - constants.MIN_TIME_BETWEEN_OPERATIONS
-            * self.conditional_manager.num_real_time_instructions
-            + constants.MIN_TIME_BETWEEN_OPERATIONS
+        self.auto_wait(
+            total_duration - else_duration * num_real_time_instructions,
+            count_as_elapsed_time=False,
         )
-        self.auto_wait(duration, count_as_elapsed_time=False)
         self.emit(
             q1asm_instructions.FEEDBACK_SET_COND,
             0,
-- 
2.43.0


From 6f362803a47743de3e5ec84578818dbac5d59cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 039/101] fix: insert the latch resets of a reused schedule
 only once

---
 quantify_scheduler/backends/qblox_backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index c8c4786..217a641 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -500,8 +500,13 @@ def _insert_latch_reset(
     abs_time_relative_to_schedule: float,
     schedule: Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
+    visited_schedules: set[int],
 ) -> None:
     if isinstance(operation, ScheduleBase):
+        # A schedule can be used several times, but needs each latch reset only once.
+        if id(operation) in visited_schedules:
+            return
+        visited_schedules.add(id(operation))
         schedulables = list(operation.schedulables.values())
         for schedulable in schedulables:
             abs_time = schedulable.data["abs_time"]
@@ -511,6 +516,7 @@ def _insert_latch_reset(
                 abs_time_relative_to_schedule=abs_time,
                 schedule=operation,
                 conditional_info_map=conditional_info_map,
+                visited_schedules=visited_schedules,
             )
     elif isinstance(operation, LoopOperation):
         _insert_latch_reset(
@@ -518,6 +524,7 @@ def _insert_latch_reset(
             abs_time_relative_to_schedule=abs_time_relative_to_schedule,
             schedule=schedule,
             conditional_info_map=conditional_info_map,
+            visited_schedules=visited_schedules,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         acq_info = operation["acquisition_info"]
@@ -613,7 +620,7 @@ def compile_conditional_playback(  # noqa: D417
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
     _set_conditional_info_map(schedule, conditional_info_map, config)
-    _insert_latch_reset(schedule, 0, schedule, conditional_info_map)
+    _insert_latch_reset(schedule, 0, schedule, conditional_info_map, set())
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
         raise ValueError(
-- 
2.43.0


From e4ad28a8eca3ea3d0e23be845a2b1eb1f2195ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 040/101] fix: trigger settings of conditionals added before
 their measurement

---
 quantify_scheduler/backends/qblox_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 217a641..d4514ae 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -619,7 +619,11 @@ def compile_conditional_playback(  # noqa: D417
     conditional_info_map = defaultdict(
         lambda: ConditionalInfo(portclocks=set(), address=address_counter.__next__())
     )
-    _set_conditional_info_map(schedule, conditional_info_map, config)
+    # The trigger settings are determined by the acquisitions, which may come after the
+    # conditional operations that use them in this (unordered) traversal. They are therefore only
+    # complete after a first pass.
+    for _ in range(2):
+        _set_conditional_info_map(schedule, conditional_info_map, config)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map, set())
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From 9d889c6a48f3342735260d1add806983e9665cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 041/101] fix: feedback triggers of weighted thresholded
 acquisitions

---
 quantify_scheduler/backends/qblox_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index d4514ae..ae6b142 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -485,6 +485,7 @@ def _set_conditional_info_map(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
                 DualThresholdedTriggerCount.__name__,
             ):
@@ -531,6 +532,7 @@ def _insert_latch_reset(
         for info in acq_info:
             if info["protocol"] in (
                 ThresholdedAcquisition.__name__,
+                WeightedThresholdedAcquisition.__name__,
                 ThresholdedTriggerCount.__name__,
             ):
                 if (feedback_trigger_label := info.get("feedback_trigger_label")) is not None:
-- 
2.43.0


From e5914396a8146ee8b87d9eacf0e3ca6c540a1822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:05 +0000
Subject: [PATCH 042/101] fix: latch resets for sequencers with only clock
 operations in a conditional

---
 quantify_scheduler/backends/qblox/helpers.py | 17 +++++++++--------
 quantify_scheduler/backends/qblox_backend.py |  9 +++++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/helpers.py b/quantify_scheduler/backends/qblox/helpers.py
index 7d2af3d..7beaca2 100644
--- a/quantify_scheduler/backends/qblox/helpers.py
+++ b/quantify_scheduler/backends/qblox/helpers.py
@@ -36,6 +36,8 @@ from quantify_scheduler.operations.pulse_library import WindowOperation
 from quantify_scheduler.schedules.schedule import Schedule, ScheduleBase
 
 if TYPE_CHECKING:
+    from collections.abc import Iterable
+
     from quantify_scheduler.backends.qblox.instrument_compilers import ClusterCompiler
     from quantify_scheduler.helpers.generate_acq_channels_data import (
         FullSchedulableLabel,
@@ -650,7 +652,7 @@ def _get_clocks_of_clock_operations(operation: Operation | Schedule) -> set[str]
 
 
 def _get_control_flow_port_clocks(
-    control_flow_operation: ControlFlowOperation, portclock_mapping: dict[str, str]
+    control_flow_operation: ControlFlowOperation, available_port_clocks: Iterable[tuple[str, str]]
 ) -> set[tuple[str, str]]:
     """
     Get the port-clocks that need to follow the control flow.
@@ -659,12 +661,9 @@ def _get_control_flow_port_clocks(
     the body.
     """
     clocks = _get_clocks_of_clock_operations(control_flow_operation)
-    port_clocks = set(control_flow_operation.get_used_port_clocks())
-    for portclock in portclock_mapping:
-        port, clock = portclock.split("-")
-        if clock in clocks:
-            port_clocks.add((port, clock))
-    return port_clocks
+    return control_flow_operation.get_used_port_clocks() | {
+        (port, clock) for port, clock in available_port_clocks if clock in clocks
+    }
 
 
 def _get_control_flow_begin(
@@ -800,7 +799,9 @@ def _get_list_of_operations_for_op_info_creation(
                 portclock_mapping,
             )
     elif isinstance(operation, ControlFlowOperation):
-        port_clocks = _get_control_flow_port_clocks(operation, portclock_mapping)
+        port_clocks = _get_control_flow_port_clocks(
+            operation, [tuple(portclock.split("-")) for portclock in portclock_mapping]
+        )
         if not port_clocks:
             # There is nothing to do for any sequencer, except for waiting.
             return
diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index ae6b142..3642a12 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -34,6 +34,7 @@ from quantify_scheduler.backends.qblox.crosstalk_compensation import (
 from quantify_scheduler.backends.qblox.enums import ChannelMode
 from quantify_scheduler.backends.qblox.helpers import (
     _generate_new_style_hardware_compilation_config,
+    _get_control_flow_port_clocks,
     assign_pulse_and_acq_info_to_devices,
 )
 from quantify_scheduler.backends.qblox.operations import long_ramp_pulse, long_square_pulse
@@ -443,6 +444,7 @@ def _set_conditional_info_map(
     operation: Operation | Schedule,
     conditional_info_map: defaultdict[str, ConditionalInfo],
     compilation_config: CompilationConfig,
+    used_port_clocks: Iterable[tuple[str, str]],
 ) -> None:
     if isinstance(operation, ScheduleBase):
         for inner_operation in operation.operations.values():
@@ -450,6 +452,7 @@ def _set_conditional_info_map(
                 operation=inner_operation,
                 conditional_info_map=conditional_info_map,
                 compilation_config=compilation_config,
+                used_port_clocks=used_port_clocks,
             )
     elif isinstance(operation, ConditionalOperation):
         # Store `feedback_trigger_address` in the pulse that corresponds
@@ -470,13 +473,14 @@ def _set_conditional_info_map(
 
         conditional_info_map[
             feedback_trigger_label
-        ].portclocks |= operation.body.get_used_port_clocks()
+        ].portclocks |= _get_control_flow_port_clocks(operation, used_port_clocks)
 
     elif isinstance(operation, ControlFlowOperation):
         _set_conditional_info_map(
             operation=operation.body,
             conditional_info_map=conditional_info_map,
             compilation_config=compilation_config,
+            used_port_clocks=used_port_clocks,
         )
     elif operation.valid_acquisition and operation.is_conditional_acquisition:
         # Store `feedback_trigger_address` in the correct acquisition, so that it can
@@ -624,8 +628,9 @@ def compile_conditional_playback(  # noqa: D417
     # The trigger settings are determined by the acquisitions, which may come after the
     # conditional operations that use them in this (unordered) traversal. They are therefore only
     # complete after a first pass.
+    used_port_clocks = schedule.get_used_port_clocks()
     for _ in range(2):
-        _set_conditional_info_map(schedule, conditional_info_map, config)
+        _set_conditional_info_map(schedule, conditional_info_map, config, used_port_clocks)
     _insert_latch_reset(schedule, 0, schedule, conditional_info_map, set())
     address_map_addresses = [a.address for a in conditional_info_map.values()]
     if max(address_map_addresses, default=0) > constants.MAX_FEEDBACK_TRIGGER_ADDRESS:
-- 
2.43.0


From 59e6b0db733f34e077321bc5c42a8ecb12d13f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 043/101] fix: next operation of a measurement with its own
 frequency

---
 quantify_scheduler/operations/measurement_factories.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 6198d44..0e3bde7 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -377,7 +377,9 @@ def _dispersive_measurement(  # noqa: PLR0915
         raise ValueError(f'Acquisition protocol "{acq_protocol}" is not supported.')
 
     if freq is not None:
-        subschedule_with_freq = Schedule("dispersive_measurement_with_freq")
+        # The delay applies to the operation after the frequency is set back.
+        subschedule.data.pop("next_operation_delay", None)
+        subschedule_with_freq = Schedule("dispersive_measurement_with_freq", data=schedule_data)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=freq))
         subschedule_with_freq.add(subschedule)
         subschedule_with_freq.add(SetClockFrequency(clock=clock, clock_freq_new=None))
-- 
2.43.0


From 8e7d2b276840410f44d40e2ea6207eca8b84a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:37 +0000
Subject: [PATCH 044/101] fix: acquisition channel of long time traces

---
 quantify_scheduler/operations/measurement_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/measurement_factories.py b/quantify_scheduler/operations/measurement_factories.py
index 0e3bde7..9a2ffa4 100644
--- a/quantify_scheduler/operations/measurement_factories.py
+++ b/quantify_scheduler/operations/measurement_factories.py
@@ -344,7 +344,7 @@ def _dispersive_measurement(  # noqa: PLR0915
             port=port,
             clock=clock,
             duration=acq_duration,
-            acq_channel=0,
+            acq_channel=acq_channel,
             coords=coords,
             acq_index=acq_index,
             bin_mode=bin_mode,
-- 
2.43.0


From bc2585a1ec426d83e407ec95e47b06fb9d6de1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 045/101] fix: acquisition delay override of measurements that
 do not delay the next operation

---
 .../backends/circuit_to_device.py             | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/backends/circuit_to_device.py b/quantify_scheduler/backends/circuit_to_device.py
index db179f1..e3d2e0c 100644
--- a/quantify_scheduler/backends/circuit_to_device.py
+++ b/quantify_scheduler/backends/circuit_to_device.py
@@ -744,11 +744,6 @@ def _get_device_repr_from_cfg(
     factory_func = operation_cfg.factory_func
 
     factory_kwargs: dict = operation_cfg.factory_kwargs
-    if (
-        isinstance(operation, Measure)
-        and not operation.data["gate_info"]["apply_acquisition_delay"]
-    ):
-        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
     # retrieve keyword args for parametrized operations from the gate info
     if operation_cfg.gate_info_factory_kwargs is not None:
@@ -760,6 +755,12 @@ def _get_device_repr_from_cfg(
         if key in factory_kwargs:
             factory_kwargs[key] = value
 
+    if (
+        isinstance(operation, Measure)
+        and not operation.data["gate_info"]["apply_acquisition_delay"]
+    ):
+        factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
+
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
@@ -791,17 +792,17 @@ def _get_device_repr_from_cfg_multiplexed(
             else:
                 factory_kwargs[key] = gate_info
 
+    # Add operation defined custom device overrides.
+    for key, value in device_overrides.items():
+        if key in factory_kwargs:
+            factory_kwargs[key] = value
+
     if (
         isinstance(operation, Measure)
         and not operation.data["gate_info"]["apply_acquisition_delay"]
     ):
         factory_kwargs["next_operation_delay"] = -factory_kwargs["acq_delay"]
 
-    # Add operation defined custom device overrides.
-    for key, value in device_overrides.items():
-        if key in factory_kwargs:
-            factory_kwargs[key] = value
-
     assert factory_func is not None
     return factory_func(**factory_kwargs)
 
-- 
2.43.0


From 7ad706bd11530c18da9951073a206e32be621e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 046/101] fix: pulse compensation of control flow and with as
 late as possible scheduling

---
 quantify_scheduler/pulse_compensation.py | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/pulse_compensation.py b/quantify_scheduler/pulse_compensation.py
index b553554..a8b8ebb 100644
--- a/quantify_scheduler/pulse_compensation.py
+++ b/quantify_scheduler/pulse_compensation.py
@@ -9,7 +9,11 @@ from copy import deepcopy
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, overload
 
-from quantify_scheduler.compilation import _determine_absolute_timing
+from quantify_scheduler.compilation import (
+    _determine_absolute_timing,
+    _determine_scheduling_strategy,
+)
+from quantify_scheduler.enums import SchedulingStrategy
 from quantify_scheduler.helpers.waveforms import area_pulse
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
@@ -179,6 +183,7 @@ def _determine_compensation_pulse(
     max_compensation_amp: dict[Port, float],
     time_grid: float,
     sampling_rate: float,
+    config: CompilationConfig | None = None,
 ) -> dict[Port, CompensationPulseParams]:
     """
     Calculates the timing and the amplitude of a compensation pulse for each port.
@@ -202,6 +207,8 @@ def _determine_compensation_pulse(
         Time grid the compensation pulse needs to be on.
     sampling_rate
         Sampling rate of the pulses.
+    config
+        Compilation config, which determines the scheduling strategy.
 
     Returns
     -------
@@ -212,10 +219,8 @@ def _determine_compensation_pulse(
     """
     pulses_start_duration_amp: dict[Port, CompensationPulseParams] = {}
 
-    operation_with_abs_times = (
-        operation
-        if not isinstance(operation, Schedule)
-        else _determine_absolute_timing(deepcopy(operation), None)
+    operation_with_abs_times = _determine_absolute_timing(
+        deepcopy(operation), time_unit=None, config=config
     )
     ports: set[str] = set(max_compensation_amp.keys())
     pulses_sum_end: dict[Port, SumEnd] = _determine_sum_and_end_of_all_pulses(
@@ -289,18 +294,23 @@ def process_compensation_pulses(
         return operation
     elif isinstance(operation, PulseCompensation):
         # Inner pulse compensated blocks need to be resolved first.
-        resolved_body = process_compensation_pulses(operation.body)
+        resolved_body = process_compensation_pulses(operation.body, config)
         all_compensation_pulse_params: dict[Port, CompensationPulseParams] = (
             _determine_compensation_pulse(
                 resolved_body,
                 operation.max_compensation_amp,
                 operation.time_grid,
                 operation.sampling_rate,
+                config,
             )
         )
 
         pulse_compensated_schedule = Schedule("pulse_compensated_schedule")
-        first_op_schedulable = pulse_compensated_schedule.add(resolved_body)
+        body_label = "pulse_compensated_body"
+        # With ALAP, operations can only refer to operations that are added later.
+        alap = _determine_scheduling_strategy(config) == SchedulingStrategy.ALAP
+        if not alap:
+            pulse_compensated_schedule.add(resolved_body, label=body_label)
 
         for (
             port,
@@ -314,10 +324,12 @@ def process_compensation_pulses(
                     clock=BasebandClockResource.IDENTITY,
                 ),
                 rel_time=compensation_pulse_params.start,
-                ref_op=first_op_schedulable,
+                ref_op=body_label,
                 ref_pt="start",
                 ref_pt_new="start",
             )
 
+        if alap:
+            pulse_compensated_schedule.add(resolved_body, label=body_label)
         return pulse_compensated_schedule
     return schedule
-- 
2.43.0


From 711ca72cddbcaacaf65b8e06551af8a6424055d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 047/101] fix: clipping of complex and time scale of software
 distortion corrected pulses

---
 quantify_scheduler/backends/corrections.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index 9617c6d..ca9f32f 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -133,24 +133,26 @@ def distortion_correct_pulse(
         distortion_correction.clipping_values is not None
         and len(distortion_correction.clipping_values) == 2
     ):
-        corrected_waveform_data = np.clip(
-            corrected_waveform_data,
-            distortion_correction.clipping_values[0],
-            distortion_correction.clipping_values[1],
-        )
+        clip_min, clip_max = distortion_correction.clipping_values
+        if np.iscomplexobj(corrected_waveform_data):
+            corrected_waveform_data = np.clip(
+                corrected_waveform_data.real, clip_min, clip_max
+            ) + 1j * np.clip(corrected_waveform_data.imag, clip_min, clip_max)
+        else:
+            corrected_waveform_data = np.clip(corrected_waveform_data, clip_min, clip_max)
 
     if corrected_waveform_data.size == 1:  # Interpolation requires two sample points
         corrected_waveform_data = np.append(corrected_waveform_data, corrected_waveform_data[-1])
 
     corrected_pulse = NumericalPulse(
         samples=corrected_waveform_data,
-        t_samples=np.linspace(
-            start=0, stop=pulse_data["duration"], num=corrected_waveform_data.size
-        ),
+        t_samples=np.arange(corrected_waveform_data.size) / distortion_correction.sampling_rate,
         port=pulse_data["port"],
         clock=pulse_data["clock"],
         t0=pulse_data["t0"],
     )
+    corrected_pulse.data["pulse_info"][0]["duration"] = pulse_data["duration"]
+    corrected_pulse._update()
 
     return corrected_pulse
 
-- 
2.43.0


From baaee6dde6e72ebc478c28f7a9866bb5c85c0235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 048/101] fix: acquisitions of operations with software
 distortion corrected pulses are lost

---
 quantify_scheduler/backends/corrections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantify_scheduler/backends/corrections.py b/quantify_scheduler/backends/corrections.py
index ca9f32f..e1d9062 100644
--- a/quantify_scheduler/backends/corrections.py
+++ b/quantify_scheduler/backends/corrections.py
@@ -333,5 +333,6 @@ def _apply_software_distortion_corrections_once(
         # required as first entry in pulse_info is used to generate signature in __str__
         if substitute_operation is not None:
             substitute_operation.data["pulse_info"] = operation.data["pulse_info"]
+            substitute_operation.data["acquisition_info"] = operation.data["acquisition_info"]
             return substitute_operation
         return None
-- 
2.43.0


From 3a32ba77eab37ae2d37db211736f767283b34a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 049/101] fix: crosstalk compensation scales relative
 amplitudes and skips pulses after a phase reset

---
 .../backends/qblox/crosstalk_compensation.py          | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/crosstalk_compensation.py b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
index f3e8a9b..5e271ae 100644
--- a/quantify_scheduler/backends/qblox/crosstalk_compensation.py
+++ b/quantify_scheduler/backends/qblox/crosstalk_compensation.py
@@ -145,9 +145,8 @@ def is_pulse(operation: Operation) -> bool:
         True if the operation is a pulse, False otherwise.
 
     """
-    return (
-        len(operation.data["pulse_info"]) > 0
-        and operation.data["pulse_info"][0]["wf_func"] is not None
+    return any(
+        pulse_info.get("wf_func") is not None for pulse_info in operation.data["pulse_info"]
     )
 
 
@@ -170,7 +169,7 @@ def _apply_compensation_to_operation(
     compensation_infos: dict[int, list[dict]] = {}
     for pulse_info in operation.data["pulse_info"]:
         port_clock = f"{pulse_info['port']}-{pulse_info['clock']}"
-        if pulse_info["wf_func"] is None or port_clock not in port_clock_list:
+        if pulse_info.get("wf_func") is None or port_clock not in port_clock_list:
             continue
         port_clock_index = port_clock_list.index(port_clock)
         compensation_row = compensation_matrix[port_clock_index]
@@ -198,7 +197,9 @@ def _apply_compensation_to_operation(
 
 def _scale_amplitude(pulse_info: dict, factor: complex) -> None:
     # Adjust all params that have amp in them, and the offset of ramp pulses.
+    # `D_amp` and `amp_B` are relative to other amplitudes.
+    not_amplitudes = ("t_samples", "D_amp", "amp_B")
     for key, value in pulse_info.items():
-        if ("amp" in key and key != "t_samples") or key == "offset":
+        if ("amp" in key and key not in not_amplitudes) or key == "offset":
             scaled = np.multiply(value, factor)
             pulse_info[key] = scaled.tolist() if isinstance(value, list) else scaled
-- 
2.43.0


From 7ece01475972c67b0a1a0df2a2f1613cda34fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 050/101] fix: complex amplitude of sudden net zero pulses

---
 quantify_scheduler/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/waveforms.py b/quantify_scheduler/waveforms.py
index 0858094..7404ed1 100644
--- a/quantify_scheduler/waveforms.py
+++ b/quantify_scheduler/waveforms.py
@@ -357,7 +357,7 @@ def sudden_net_zero(
             "Specified pulse part durations add up to longer than the given time array."
         )
 
-    waveform = np.zeros(len(t))
+    waveform = np.zeros(len(t), dtype=complex if np.iscomplexobj(amp_A) else float)
     waveform[:single_arm_samples] = amp_A
     waveform[single_arm_samples - 1] = amp_A * amp_B
     waveform[single_arm_samples + mid_samples : 2 * single_arm_samples + mid_samples] = (
-- 
2.43.0


From 8e6172d0998288d4973fc82bc00926b22f790f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:11 +0000
Subject: [PATCH 051/101] fix: complex amplitudes and leftover offsets of long
 ramp pulses

---
 .../backends/qblox/operations/pulse_factories.py   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operations/pulse_factories.py b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
index 81cee9c..07e2c12 100644
--- a/quantify_scheduler/backends/qblox/operations/pulse_factories.py
+++ b/quantify_scheduler/backends/qblox/operations/pulse_factories.py
@@ -10,7 +10,7 @@ hardware features.
 
 from __future__ import annotations
 
-import math
+import cmath
 
 import numpy as np
 
@@ -280,15 +280,17 @@ def long_ramp_pulse(
     builder = StitchedPulseBuilder(long_ramp_pulse.__name__, port=port, clock=clock, t0=t0)
 
     last_sample_voltage = offset
+    awg_offset = 0.0
     for _ in range(num_whole_parts):
         # Add an offset for each ramp part, except for the first one if the overall ramp
         # offset is 0.
-        if last_sample_voltage != offset or not math.isclose(offset, 0.0):
+        if last_sample_voltage != offset or not cmath.isclose(offset, 0.0):
             builder.add_voltage_offset(
-                path_I=last_sample_voltage,
-                path_Q=0.0,
+                path_I=np.real(last_sample_voltage),
+                path_Q=np.imag(last_sample_voltage),
                 reference_magnitude=reference_magnitude,
             )
+            awg_offset = last_sample_voltage
         builder.add_pulse(
             pulse_library.RampPulse(
                 amp=amp_part,
@@ -304,9 +306,7 @@ def long_ramp_pulse(
     # 'UpdateParameters' instruction at the end.
 
     # Insert a 0 offset if offsets were inserted above and the last offset is not 0.
-    if not math.isclose(last_sample_voltage, offset) and not math.isclose(
-        last_sample_voltage - amp_part, 0.0
-    ):
+    if not cmath.isclose(awg_offset, 0.0):
         builder.add_voltage_offset(path_I=0.0, path_Q=0.0)
     builder.add_pulse(
         pulse_library.RampPulse(
-- 
2.43.0


From 411e3d2031e7179a086bd317d2773af08bba7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 052/101] fix: refuse loops whose number of repetitions does
 not fit a register

---
 quantify_scheduler/backends/qblox/qasm_program.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index a7891ed..6efc13e 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -627,6 +627,11 @@ class QASMProgram:
             qasm.instructions
 
         """
+        if not 0 < repetitions <= constants.REGISTER_SIZE:
+            raise ValueError(
+                f"The number of repetitions of a loop must be between 1 and "
+                f"{constants.REGISTER_SIZE}, got {repetitions}."
+            )
         register = self.register_manager.allocate_register()
         comment = f"iterator for loop with label {label}"
 
-- 
2.43.0


From ecfb28a7b64b1ea2d1dd0e24fac6355c63b903dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 053/101] fix: range check of FIR filter coefficients

---
 quantify_scheduler/backends/qblox/instrument_compilers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index 5a4641f..e4a39fb 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -9,8 +9,6 @@ from collections import defaultdict
 from itertools import chain
 from typing import TYPE_CHECKING, Any
 
-import numpy as np
-
 from quantify_scheduler.backends.qblox import compiler_abc
 from quantify_scheduler.backends.qblox.analog import (
     AnalogModuleCompiler,
@@ -213,7 +211,7 @@ class QCMCompiler(BasebandModuleCompiler):
                                 marker_debug_mode_enable,
                             )
                     if key == "fir_coeffs" and value is not None:
-                        if len(value) != 32 or np.any(value) < -2 or np.any(value) >= 2:
+                        if len(value) != 32 or min(value) < -2 or max(value) >= 2:
                             raise ValueError(
                                 "The FIR filter has 32 coefficients with a range of [-2,2) each."
                             )
-- 
2.43.0


From e4339e1c56d0d18fce929d478b2fa8a6b8e77f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:01 +0000
Subject: [PATCH 054/101] fix: sequencer reservation refused feasible QRC
 assignments

---
 quantify_scheduler/backends/qblox_backend.py | 55 +++++++++++++-------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 3642a12..978c067 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1300,24 +1300,43 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
         # See SE-672, with that change, this data and logic might need to also change.
         sequencer_to_portclock: dict[SequencerIndex, str] = {}
 
-        def find_sequencer_index(portclock: str) -> SequencerIndex:
+        def is_allowed(portclock: str, allowed_channels: AllowedChannels) -> bool:
             path: ChannelPath = self.portclock_to_path[portclock]
-            for sequencer_index, allowed_channels in self.sequencer_allowed_channels.items():
+            if path.channel_name_measure is None:
+                # In this case path.channel_name can also be the input channel name.
+                return (
+                    path.channel_name in allowed_channels.output
+                    or path.channel_name in allowed_channels.input
+                )
+            # In this case path.channel_name_measure can only be the input channel name.
+            return path.channel_name in allowed_channels.output and all(
+                (ch in allowed_channels.input) for ch in path.channel_name_measure
+            )
+
+        def reserve_sequencer(portclock: str, visited: set[SequencerIndex]) -> bool:
+            candidates = [
+                sequencer_index
+                for sequencer_index, allowed_channels in self.sequencer_allowed_channels.items()
+                if sequencer_index not in visited and is_allowed(portclock, allowed_channels)
+            ]
+            for sequencer_index in candidates:
                 if sequencer_index not in sequencer_to_portclock:
-                    if path.channel_name_measure is None:
-                        # In this case path.channel_name can also be the input channel name.
-                        if (
-                            path.channel_name in allowed_channels.output
-                            or path.channel_name in allowed_channels.input
-                        ):
-                            return sequencer_index
-                    else:
-                        # In this case path.channel_name_measure can only be the input channel name.
-                        channel_name_measure = path.channel_name_measure or {}
-                        if path.channel_name in allowed_channels.output and all(
-                            (ch in allowed_channels.input) for ch in channel_name_measure
-                        ):
-                            return sequencer_index
+                    sequencer_to_portclock[sequencer_index] = portclock
+                    return True
+            # Make room by moving an already reserved portclock to another sequencer.
+            for sequencer_index in candidates:
+                if sequencer_index in visited:
+                    continue
+                visited.add(sequencer_index)
+                if reserve_sequencer(sequencer_to_portclock[sequencer_index], visited):
+                    sequencer_to_portclock[sequencer_index] = portclock
+                    return True
+            return False
+
+        def find_sequencer(portclock: str) -> None:
+            if reserve_sequencer(portclock, set()):
+                return
+            path: ChannelPath = self.portclock_to_path[portclock]
             raise ValueError(
                 f"Cannot reserve a Qblox sequencer for the module "
                 f"{self.hardware_description.instrument_type}, portclock {portclock}. "
@@ -1334,11 +1353,11 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
         for portclock in sorted(self.portclock_to_path):
             path: ChannelPath = self.portclock_to_path[portclock]
             if path.channel_name_measure is not None:
-                sequencer_to_portclock[find_sequencer_index(portclock)] = portclock
+                find_sequencer(portclock)
                 reserved_portclocks.add(portclock)
         for portclock in sorted(self.portclock_to_path):
             if portclock not in reserved_portclocks:
-                sequencer_to_portclock[find_sequencer_index(portclock)] = portclock
+                find_sequencer(portclock)
 
         return sequencer_to_portclock
 
-- 
2.43.0


From b9e3d5292c9ea242a04746597be39b6c64d83cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 055/101] fix: refuse more waveforms or acquisition weights
 than fit a sequencer

---
 quantify_scheduler/backends/qblox/compiler_abc.py | 14 +++++++++++++-
 quantify_scheduler/backends/qblox/constants.py    |  4 ++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 8391b1c..92e9736 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -446,9 +446,14 @@ class SequencerCompiler(ABC):
         for op_strategy in self.op_strategies:
             if op_strategy.operation_info.is_acquisition:
                 op_strategy.generate_data(wf_dict)
+        self._validate_awg_dict(wf_dict=wf_dict, max_number=constants.MAX_NUMBER_OF_WEIGHTS)
         return wf_dict
 
-    def _validate_awg_dict(self, wf_dict: dict[str, Any]) -> None:
+    def _validate_awg_dict(
+        self,
+        wf_dict: dict[str, Any],
+        max_number: int = constants.MAX_NUMBER_OF_WAVEFORMS,
+    ) -> None:
         total_size = 0
         used_indices = set()
         for waveform in wf_dict.values():
@@ -457,6 +462,13 @@ class SequencerCompiler(ABC):
                 raise RuntimeError(f"Duplicate index {waveform['index']} in waveform dictionary.")
             used_indices.add(waveform["index"])
 
+        if max(used_indices, default=0) >= max_number:
+            raise RuntimeError(
+                f"Number of waveforms specified for port-clock {self.port}-{self.clock} "
+                f"exceeds the limit of {max_number}. The compiled schedule cannot be "
+                f"uploaded to the sequencer.",
+            )
+
         if total_size > constants.MAX_SAMPLE_SIZE_WAVEFORMS:
             raise RuntimeError(
                 f"Total waveform size specified for port-clock {self.port}-"
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 50a6aed..0c76a20 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -79,6 +79,10 @@ NUMBER_OF_REGISTERS: int = 64
 """Number of registers available in the Qblox sequencers."""
 MAX_SAMPLE_SIZE_SCOPE_ACQUISITIONS: int = 16384
 """Maximal amount of scope trace acquisition datapoints returned."""
+MAX_NUMBER_OF_WAVEFORMS: int = 1024
+"""Maximum number of waveforms that can be uploaded to a sequencer."""
+MAX_NUMBER_OF_WEIGHTS: int = 64
+"""Maximum number of acquisition weights that can be uploaded to a sequencer."""
 MAX_SAMPLE_SIZE_WAVEFORMS: int = 16384
 """Maximal amount of samples in the waveforms to be uploaded to a sequencer."""
 MIN_PHASE_ROTATION_ACQ = 0
-- 
2.43.0


From f2a673dd6e87954874676f90f3e4c1e994ec2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 056/101] fix: refuse acquisition lengths and thresholds out of
 hardware range

---
 quantify_scheduler/backends/qblox/analog.py   | 27 ++++++++++++++-----
 .../backends/qblox/constants.py               |  4 +++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 725de28..8c0a605 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -373,14 +373,15 @@ class AnalogSequencerCompiler(SequencerCompiler):
         )
         self._settings.thresholded_acq_rotation = acq_rotation
 
-        _verify_param_range(
-            param_name="acq_threshold",
-            val=acq_threshold,
-            min_value=constants.MIN_DISCRETIZATION_THRESHOLD_ACQ,
-            max_value=constants.MAX_DISCRETIZATION_THRESHOLD_ACQ,
-            portclock=self.portclock,
-        )
         integration_length = acquisition_infos[0].data.get("duration", 0.0) * 1e9
+        for threshold in (acq_threshold, acq_threshold * integration_length):
+            _verify_param_range(
+                param_name="acq_threshold",
+                val=threshold,
+                min_value=constants.MIN_DISCRETIZATION_THRESHOLD_ACQ,
+                max_value=constants.MAX_DISCRETIZATION_THRESHOLD_ACQ,
+                portclock=self.portclock,
+            )
         self._settings.thresholded_acq_threshold = acq_threshold * integration_length
 
     def _get_integration_length_from_acquisitions(self) -> int | None:
@@ -396,6 +397,18 @@ class AnalogSequencerCompiler(SequencerCompiler):
                 continue
 
             acq_duration_ns = round(op_strat.operation_info.duration * 1e9)
+            max_duration_ns = (
+                constants.MAX_SAMPLE_SIZE_SCOPE_ACQUISITIONS
+                if op_strat.operation_info.data.get("protocol") == "Trace"
+                else constants.MAX_INTEGRATION_LENGTH_ACQ
+            )
+            if not constants.MIN_INTEGRATION_LENGTH_ACQ <= acq_duration_ns <= max_duration_ns:
+                raise ValueError(
+                    f"Attempting to perform an acquisition with a duration of "
+                    f"{acq_duration_ns} ns, which is not between "
+                    f"{constants.MIN_INTEGRATION_LENGTH_ACQ} and {max_duration_ns} ns."
+                    f"\n\nException caused by {op_strat!r}."
+                )
             if acq_duration_ns % constants.GRID_TIME != 0:
                 raise ValueError(
                     "Attempting to perform square acquisition with a duration of "
diff --git a/quantify_scheduler/backends/qblox/constants.py b/quantify_scheduler/backends/qblox/constants.py
index 0c76a20..f3b213e 100644
--- a/quantify_scheduler/backends/qblox/constants.py
+++ b/quantify_scheduler/backends/qblox/constants.py
@@ -79,6 +79,10 @@ NUMBER_OF_REGISTERS: int = 64
 """Number of registers available in the Qblox sequencers."""
 MAX_SAMPLE_SIZE_SCOPE_ACQUISITIONS: int = 16384
 """Maximal amount of scope trace acquisition datapoints returned."""
+MIN_INTEGRATION_LENGTH_ACQ: int = 4
+"""Minimum integration length (in ns) of acquisitions."""
+MAX_INTEGRATION_LENGTH_ACQ: int = 2**24 - 4
+"""Maximum integration length (in ns) of non-weighted acquisitions."""
 MAX_NUMBER_OF_WAVEFORMS: int = 1024
 """Maximum number of waveforms that can be uploaded to a sequencer."""
 MAX_NUMBER_OF_WEIGHTS: int = 64
-- 
2.43.0


From 16546ddbcbe98bb4b96a9cbd5f5997cb7fe66b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 057/101] fix: numpy scalars of every type survive JSON
 serialisation

---
 quantify_scheduler/json_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantify_scheduler/json_utils.py b/quantify_scheduler/json_utils.py
index fa85b92..53ade45 100644
--- a/quantify_scheduler/json_utils.py
+++ b/quantify_scheduler/json_utils.py
@@ -399,6 +399,13 @@ class SchedulerJSONEncoder(json.JSONEncoder):
                     "mode": "__init__",
                     "data": list(o),
                 }
+            elif isinstance(o, (np.number, np.bool_)):
+                # Other NumPy scalars, e.g. `np.float32`, `np.uint8` or `np.bool_`.
+                return {
+                    "deserialization_type": f"numpy.{type(o).__name__}",
+                    "mode": "__init__",
+                    "data": o.item(),
+                }
             elif o in DEFAULT_TYPES:
                 assert isinstance(o, type)
                 return {"deserialization_type": o.__name__, "mode": "type"}
-- 
2.43.0


From 39f688cf300e737cb1b5718c3d2d10e4d3c7b180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 058/101] fix: compiled schedules keep their acquisition
 hardware mapping through JSON

---
 .../backends/qblox/qblox_acq_index_manager.py | 22 +++++++++++--
 quantify_scheduler/schedules/schedule.py      | 32 +++++++++++++++++++
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
index 5f904ea..a4baca0 100644
--- a/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
+++ b/quantify_scheduler/backends/qblox/qblox_acq_index_manager.py
@@ -7,16 +7,17 @@ Qblox acquisition indices and bins and for Qblox sequencers.
 
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import asdict, dataclass
 from typing import TYPE_CHECKING, Any, Union
 
 from quantify_scheduler.backends.qblox import constants
+from quantify_scheduler.backends.types.common import ThresholdedTriggerCountMetadata
+from quantify_scheduler.enums import TriggerCondition
+from quantify_scheduler.helpers.importers import export_python_object_to_path_string
 
 if TYPE_CHECKING:
     from collections.abc import Hashable
 
-    from quantify_scheduler.backends.types.common import ThresholdedTriggerCountMetadata
-
 QbloxAcquisitionIndex = int
 
 
@@ -54,6 +55,21 @@ class QbloxAcquisitionIndexBin:
     On QTM, this is unused, threshold calculations are on the hardware.
     """
 
+    def __json_getstate__(self) -> dict[str, Any]:
+        return {
+            "deserialization_type": export_python_object_to_path_string(self.__class__),
+            "data": asdict(self),
+        }
+
+    def __json_setstate__(self, state: dict[str, Any]) -> None:
+        data = dict(state["data"])
+        if (metadata := data["thresholded_trigger_count_metadata"]) is not None:
+            data["thresholded_trigger_count_metadata"] = ThresholdedTriggerCountMetadata(
+                threshold=metadata["threshold"],
+                condition=TriggerCondition(metadata["condition"]),
+            )
+        self.__init__(**data)
+
 
 QbloxAcquisitionBinMapping = dict[int, QbloxAcquisitionIndexBin]
 """
diff --git a/quantify_scheduler/schedules/schedule.py b/quantify_scheduler/schedules/schedule.py
index f22fb00..a094520 100644
--- a/quantify_scheduler/schedules/schedule.py
+++ b/quantify_scheduler/schedules/schedule.py
@@ -1153,6 +1153,26 @@ class CompiledSchedule(ScheduleBase):
                 compiled_instructions[component_key]["acq_channels_data"] = (
                     serialized_acq_channels_data
                 )
+                # The same holds for the keys of the acquisition hardware mappings.
+                for module_key, module in component.items():
+                    if isinstance(module, dict) and "acq_hardware_mapping" in module:
+                        compiled_instructions[component_key][module_key] = {
+                            **module,
+                            "acq_hardware_mapping": {
+                                seq_name: [
+                                    dict(
+                                        key=acq_channel,
+                                        value=(
+                                            [dict(key=k, value=v) for k, v in mapping.items()]
+                                            if isinstance(mapping, dict)
+                                            else mapping
+                                        ),
+                                    )
+                                    for acq_channel, mapping in seq_mapping.items()
+                                ]
+                                for seq_name, seq_mapping in module["acq_hardware_mapping"].items()
+                            },
+                        }
         return state
 
     def __setstate__(self, state: dict[str, Any]) -> None:
@@ -1172,4 +1192,16 @@ class CompiledSchedule(ScheduleBase):
                     for elem in component["acq_channels_data"]
                 }
                 component["acq_channels_data"] = deserialized_acq_channels
+                for module in component.values():
+                    if isinstance(module, dict) and "acq_hardware_mapping" in module:
+                        for seq_name, seq_mapping in module["acq_hardware_mapping"].items():
+                            if isinstance(seq_mapping, list):
+                                module["acq_hardware_mapping"][seq_name] = {
+                                    elem["key"]: (
+                                        {e["key"]: e["value"] for e in elem["value"]}
+                                        if isinstance(elem["value"], list)
+                                        else elem["value"]
+                                    )
+                                    for elem in seq_mapping
+                                }
         super().__setstate__(state)
-- 
2.43.0


From eaa4ec90e1554d798208b753f40fd457eb037598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 059/101] fix: QTM programs restored from JSON can be prepared

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index d9b17fb..5b72ef4 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1482,6 +1482,8 @@ class _QTMComponent(_ModuleComponentBase):
                     f'with name "{seq_name}".'
                 )
 
+            if isinstance(settings, dict):
+                settings = TimetagSequencerSettings.from_dict(settings)
             # 1-1 Sequencer-io_channel coupling,
             # the io_channel settings are inside SequencerSettings
             self._configure_sequencer_settings(seq_idx=seq_idx, settings=settings)
@@ -1502,6 +1504,8 @@ class _QTMComponent(_ModuleComponentBase):
             self._acquisition_manager = None
 
         if (settings := program.get("settings")) is not None:
+            if isinstance(settings, dict):
+                settings = TimetagModuleSettings.from_dict(settings)
             assert isinstance(settings, TimetagModuleSettings)
             self._configure_global_settings(settings)
 
-- 
2.43.0


From ffd5b8c94172a6d038c85a1dca3a9cdc21ba9882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 060/101] fix: text form of WeightedIntegratedSeparated and
 DualThresholdedTriggerCount

---
 quantify_scheduler/operations/acquisition_library.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/acquisition_library.py b/quantify_scheduler/operations/acquisition_library.py
index e557a94..633be81 100644
--- a/quantify_scheduler/operations/acquisition_library.py
+++ b/quantify_scheduler/operations/acquisition_library.py
@@ -247,7 +247,9 @@ class WeightedIntegratedSeparated(Acquisition):
             self.data["acquisition_info"][0]["protocol"] = "WeightedIntegratedSeparated"
 
     def __str__(self) -> str:
-        acq_info = self.data["acquisition_info"][0]
+        acq_info = copy(self.data["acquisition_info"][0])
+        # The __str__ method is used for serialization. The keys must match the input parameters.
+        acq_info["waveform_a"], acq_info["waveform_b"] = acq_info["waveforms"]
         return self._get_signature(acq_info)
 
 
@@ -1530,7 +1532,7 @@ class DualThresholdedTriggerCount(Acquisition):
         acq_info["threshold_high"] = acq_info["thresholded_trigger_count"]["threshold_high"]
         # Pyright thinks custom StrEnum is not iterable.
         for suffix in DualThresholdedTriggerCountLabels:  # type: ignore
-            acq_info[f"label_{suffix}"] = acq_info[f"feedback_trigger_label_{suffix}"]
+            acq_info[f"label_{suffix}"] = acq_info["feedback_trigger_labels"][suffix]
         return self._get_signature(acq_info)
 
 
-- 
2.43.0


From 568b6d0df9f3d7d92af43aa48f12dda08d412edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 061/101] fix: hardware options and channel descriptions that
 are explicitly None

---
 quantify_scheduler/backends/qblox_backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index 978c067..ed2b25e 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1053,6 +1053,8 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
 
         options_by_portclock: dict[str, dict[str, Any]] = {}
         for option, pc_to_value_map in self.hardware_options.model_dump(exclude_unset=True).items():
+            if pc_to_value_map is None:
+                continue
             for pc, value in pc_to_value_map.items():
                 options_by_portclock.setdefault(pc, {})[option] = value
 
@@ -1376,11 +1378,8 @@ class _ClusterModuleCompilationConfig(ABC, DataStructure):
             )
             hardware_description = {}
             for description in self.hardware_description.model_fields_set:
-                if description == path.channel_name:
-                    hardware_description = getattr(
-                        self.hardware_description,
-                        description,
-                    )
+                hardware_description = getattr(self.hardware_description, description)
+                if description == path.channel_name and hardware_description is not None:
                     break
             else:
                 # No channel descriptions were set, make a default one based on the channel name.
@@ -1839,6 +1838,8 @@ class _ClusterCompilationConfig(DataStructure):
         }
 
         for option, values in self.hardware_options.model_dump(exclude_unset=True).items():
+            if values is None:
+                continue
             for pc, option_value in values.items():
                 module_idx = self.portclock_to_path[pc].module_idx
 
-- 
2.43.0


From 841dd03213eb3618563ea4b047f5bb3ae04fb9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 062/101] fix: scope data of QRC input 1 for schedules restored
 from JSON

---
 .../instrument_coordinator/components/qblox.py           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 5b72ef4..75820ce 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -775,6 +775,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
             self._set_parameter(self.instrument.sequencers[seq_idx], "sync_en", False)
 
         acq_duration = {}
+        sequencers = {}
         for seq_name, settings in program["sequencers"].items():
             if isinstance(settings, dict):
                 sequencer_settings = AnalogSequencerSettings.from_dict(settings)
@@ -790,6 +791,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
 
             self._configure_sequencer_settings(seq_idx=seq_idx, settings=sequencer_settings)
             acq_duration[seq_name] = sequencer_settings.integration_length_acq
+            sequencers[seq_name] = sequencer_settings
 
         if (acq_hardware_mapping := program.get("acq_hardware_mapping")) is not None:
             scope_mode_sequencer_and_qblox_acq_index = (
@@ -804,7 +806,7 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 scope_mode_sequencer_and_qblox_acq_index=scope_mode_sequencer_and_qblox_acq_index,
                 acquisition_duration=acq_duration,
                 seq_name_to_idx_map=self._seq_name_to_idx_map,
-                sequencers=program.get("sequencers"),
+                sequencers=sequencers,
                 repetitions=repetitions,
             )
         else:
@@ -2283,7 +2285,10 @@ class _QRMAcquisitionManager(_AcquisitionManagerBase):
         if (self._sequencers is not None) and (
             connected_sequencer := self._sequencers.get(sequencer_name)
         ) is not None:
-            connected_input_indices = getattr(connected_sequencer, "connected_input_indices", None)
+            # These indices are a list in a schedule restored from JSON.
+            connected_input_indices = tuple(
+                getattr(connected_sequencer, "connected_input_indices", None) or ()
+            )
             if connected_input_indices == (2, 3):
                 path0 = scope_data["path2"]
                 path1 = scope_data["path3"]
-- 
2.43.0


From f0f700bf8e7ebdff58abf624ad28acf7bde803c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:47 +0000
Subject: [PATCH 063/101] fix: timing table of compiled schedules with long
 ramps

---
 quantify_scheduler/operations/pulse_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/operations/pulse_library.py b/quantify_scheduler/operations/pulse_library.py
index 747bbd2..7c0ef75 100644
--- a/quantify_scheduler/operations/pulse_library.py
+++ b/quantify_scheduler/operations/pulse_library.py
@@ -322,7 +322,8 @@ class RampPulse(Operation):
         self._update()
 
     def __str__(self) -> str:
-        pulse_info = self.data["pulse_info"][0]
+        # Some pulse infos do not have amps in them, we need to select the correct pulse info.
+        pulse_info = [d for d in self.data["pulse_info"] if "amp" in d][0]
         return self._get_signature(pulse_info)
 
 
-- 
2.43.0


From 320be0ad1363e3c332cd15c0e0a840c6341adce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 064/101] fix: channels of ports used with several clocks or an
 external LO, whatever the order of the connections

---
 quantify_scheduler/backends/qblox_backend.py | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/backends/qblox_backend.py b/quantify_scheduler/backends/qblox_backend.py
index ed2b25e..6df64d6 100644
--- a/quantify_scheduler/backends/qblox_backend.py
+++ b/quantify_scheduler/backends/qblox_backend.py
@@ -1028,7 +1028,7 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                         continue
 
                     for lo_name, lo_path in cfg.lo_to_path.items():
-                        if cfg.portclock_to_path[portclock] == lo_path:
+                        if str(cfg.portclock_to_path[portclock]) == str(lo_path):
                             lo_config = lo_configs[lo_name]
                             used_los.add(lo_name)
                             if lo_config.hardware_description.instrument_name is None:
@@ -1198,8 +1198,10 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                 raise KeyError(f"{port} was not found in the connectivity.")
             for port_nbr in self.connectivity.graph.neighbors(port):
                 if is_path(port_nbr):
-                    path = ChannelPath.from_path(port_nbr)
                     for clock in clocks:
+                        # Each port-clock has its own path object, because
+                        # `add_channel_name_measure` modifies it.
+                        path = ChannelPath.from_path(port_nbr)
                         repeated_pc = False
                         pc = f"{port}-{clock}"
                         # Add extra channel name for `Measure` operation. This takes place after
@@ -1226,12 +1228,23 @@ class QbloxHardwareCompilationConfig(HardwareCompilationConfig):
                     # port and the channel.
                     mixer = port_nbr[: port_nbr.rindex(".")]
                     mixer_path, mixer_lo = get_module_and_lo_for_mixer(mixer)
-                    path = ChannelPath.from_path(mixer_path)
-                    cluster_lo_to_path[path.cluster_name][mixer_lo] = path
+                    lo_path = ChannelPath.from_path(mixer_path)
+                    cluster_lo_to_path[lo_path.cluster_name][mixer_lo] = lo_path
                     for clock in clocks:
+                        path = ChannelPath.from_path(mixer_path)
                         # NV center hack:
                         fixed_clock = get_optical_clock(mixer, clocks) or clock
-                        cluster_pc_to_path[path.cluster_name][f"{port}-{fixed_clock}"] = path
+                        pc = f"{port}-{fixed_clock}"
+                        input_path = cluster_pc_to_path[path.cluster_name].get(pc)
+                        if (
+                            input_path is not None
+                            and input_path.module_name == path.module_name
+                            and "input" in input_path.channel_name
+                        ):
+                            # The input channel of this port was encountered first.
+                            input_path.add_channel_name_measure(path.channel_name)
+                        else:
+                            cluster_pc_to_path[path.cluster_name][pc] = path
 
         for cluster_name, pc_to_path in cluster_pc_to_path.items():
             cluster_configs[cluster_name].portclock_to_path = pc_to_path
-- 
2.43.0


From 447de0c953d4e8d8c19676075df73fd40c2f0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 065/101] fix: attenuations of port-clocks that share an RF
 channel, and of QRC outputs 2 to 5 and input 1

---
 quantify_scheduler/backends/qblox/analog.py | 73 +++++++++++----------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 8c0a605..1a3193f 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -1240,44 +1240,47 @@ class RFModuleCompiler(AnalogModuleCompiler, ABC):
                 raise ValueError(f'Trying to set "{label}" to non-integer value {value}')
             return int(value)
 
-        in0_att = out0_att = out1_att = None
-
-        input_att_cfg = self.instrument_cfg.hardware_options.input_att
-
-        output_att_cfg = self.instrument_cfg.hardware_options.output_att
-
-        for (
-            portclock,
-            path,
-        ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_input_0" and input_att_cfg is not None:
-                in0_att = input_att_cfg.get(portclock)
-
-        for (
-            portclock,
-            path,
-        ) in self.instrument_cfg.portclock_to_path.items():
-            if path.channel_name == "complex_output_0":
-                if input_att_cfg is not None:
-                    in0_att_from_output = input_att_cfg.get(portclock)
-                    if in0_att_from_output is not None:
-                        if in0_att is not None:
-                            raise ValueError(
-                                f"'input_att' is defined for both 'complex_input_0' and "
-                                f"'complex_output_0' on module '{self.name}', which is prohibited. "
-                                f"Make sure you define it at a single place."
-                            )
-                        in0_att = in0_att_from_output
+        def _assign(setting: str, value: float | None) -> None:
+            if value is None:
+                return
+            previous_value = attenuations.setdefault(setting, value)
+            if not math.isclose(previous_value, value):
+                raise ValueError(
+                    f"Attempting to set '{setting}' of module '{self.name}' to {value}, while it "
+                    f"has previously been set to {previous_value} for another port-clock."
+                )
 
-                if output_att_cfg is not None:
-                    out0_att = output_att_cfg.get(portclock)
+        attenuations: dict[str, float] = {}
+        input_channels: dict[str, str] = {}
+
+        input_att_cfg = self.instrument_cfg.hardware_options.input_att or {}
+        output_att_cfg = self.instrument_cfg.hardware_options.output_att or {}
+
+        for portclock, path in self.instrument_cfg.portclock_to_path.items():
+            channel_names = {path.channel_name, *(path.channel_name_measure or ())}
+            inputs = {name for name in channel_names if "complex_input" in name}
+
+            if portclock in input_att_cfg and ChannelMode.COMPLEX in path.channel_name:
+                # An output without a connected input implies the input with the same index.
+                for name in inputs or {path.channel_name}:
+                    setting = f"in{name.rsplit('_', 1)[-1]}_att"
+                    if input_channels.setdefault(setting, path.channel_name) != path.channel_name:
+                        input_channel, output_channel = sorted(
+                            (input_channels[setting], path.channel_name)
+                        )
+                        raise ValueError(
+                            f"'input_att' is defined for both '{input_channel}' and "
+                            f"'{output_channel}' on module '{self.name}', which is prohibited. "
+                            f"Make sure you define it at a single place."
+                        )
+                    if hasattr(self._settings, setting):
+                        _assign(setting, input_att_cfg[portclock])
 
-            if path.channel_name == "complex_output_1" and output_att_cfg is not None:
-                out1_att = output_att_cfg.get(portclock)
+            if "complex_output" in path.channel_name:
+                _assign(f"out{path.channel_idx}_att", output_att_cfg.get(portclock))
 
-        self._settings.in0_att = _convert_to_int(in0_att, label="in0_att")
-        self._settings.out0_att = _convert_to_int(out0_att, label="out0_att")
-        self._settings.out1_att = _convert_to_int(out1_att, label="out1_att")
+        for setting, value in attenuations.items():
+            setattr(self._settings, setting, _convert_to_int(value, label=setting))
 
     def _configure_dc_latency_comp_for_marker(self, output: int, dc_comp: int) -> None:
         output += 2  # In RF modules, the two marker indices are 2 & 3.
-- 
2.43.0


From bd34719aef7d6a45161b70d59ba648fbee526b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 066/101] fix: mixer offsets of port-clocks that share an
 output

---
 quantify_scheduler/backends/qblox/analog.py | 66 +++++++++++----------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 1a3193f..0882a00 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -25,6 +25,7 @@ from quantify_scheduler.backends.qblox.compiler_abc import (
 from quantify_scheduler.backends.qblox.enums import (
     ChannelMode,
     DistortionCorrectionLatencyEnum,
+    LoCalEnum,
     QbloxFilterConfig,
     QbloxFilterMarkerDelay,
 )
@@ -798,42 +799,43 @@ class AnalogModuleCompiler(ClusterModuleCompiler, ABC):
                         mixer_corrections = None
 
                     if mixer_corrections:
-                        offset_i = mixer_corrections.dc_offset_i
-                        offset_q = mixer_corrections.dc_offset_q
                         voltage_range = self.static_hw_properties.mixer_dc_offset_range
-                        if output_idx == 0:
-                            self._settings.offset_ch0_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
+                        for path_name, offset in (
+                            ("I", mixer_corrections.dc_offset_i),
+                            ("Q", mixer_corrections.dc_offset_q),
+                        ):
+                            self._set_unique_mixer_setting(
+                                f"offset_ch{output_idx}_path_{path_name}",
+                                helpers.calc_from_units_volt(
+                                    voltage_range,
+                                    self.name,
+                                    f"dc_mixer_offset_{path_name}",
+                                    offset,
+                                ),
+                                portclock,
                             )
-                            self._settings.offset_ch0_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out0_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
-                            )
-                        else:
-                            self._settings.offset_ch1_path_I = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_I",
-                                offset_i,
-                            )
-                            self._settings.offset_ch1_path_Q = helpers.calc_from_units_volt(
-                                voltage_range,
-                                self.name,
-                                "dc_mixer_offset_Q",
-                                offset_q,
-                            )
-                            self._settings.out1_lo_freq_cal_type_default = (
-                                mixer_corrections.auto_lo_cal
+                        if mixer_corrections.auto_lo_cal != LoCalEnum.OFF:
+                            self._set_unique_mixer_setting(
+                                f"out{output_idx}_lo_freq_cal_type_default",
+                                mixer_corrections.auto_lo_cal,
+                                portclock,
                             )
 
+    def _set_unique_mixer_setting(
+        self, setting: str, value: float | LoCalEnum | None, portclock: str
+    ) -> None:
+        """Set a setting that is shared by all port-clocks on the same output."""
+        if value is None:
+            return
+        previous_value = getattr(self._settings, setting)
+        if previous_value not in (None, LoCalEnum.OFF, value):
+            raise ValueError(
+                f"Attempting to set '{setting}' of module '{self.name}' to {value} for "
+                f"port-clock '{portclock}', while it has previously been set to "
+                f"{previous_value} for another port-clock on the same output."
+            )
+        setattr(self._settings, setting, value)
+
     def _configure_distortion_correction_latency_compensations(
         self, distortion_configs: dict[int, Any] | None = None
     ) -> None:
-- 
2.43.0


From 1e9140773b8a85ecbb8a3e1602e7bd7b4c054d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 067/101] fix: input gain of an input that is not numbered like
 the output

---
 quantify_scheduler/backends/qblox/analog.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/analog.py b/quantify_scheduler/backends/qblox/analog.py
index 0882a00..5c7f253 100644
--- a/quantify_scheduler/backends/qblox/analog.py
+++ b/quantify_scheduler/backends/qblox/analog.py
@@ -744,9 +744,14 @@ class AnalogModuleCompiler(ClusterModuleCompiler, ABC):
                     in0_gain = input_gain.gain_I
                     in1_gain = input_gain.gain_Q
                 elif isinstance(input_gain, RealInputGain):
-                    if int(path.channel_name[-1]) == 0:
+                    # The gain belongs to the connected input. Without a single connected
+                    # input, the output implies the input with the same index.
+                    channel_name = path.channel_name
+                    if path.channel_name_measure is not None and len(path.channel_name_measure) == 1:
+                        (channel_name,) = path.channel_name_measure
+                    if int(channel_name[-1]) == 0:
                         in0_gain = input_gain
-                    elif int(path.channel_name[-1]) == 1:
+                    elif int(channel_name[-1]) == 1:
                         in1_gain = input_gain
 
                 if init_portclock and (
-- 
2.43.0


From 06bc7bcd2b4a45a4919c07df034351a16f45ab10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 068/101] fix: distortion corrections on complex_output_1 of a
 QCM

---
 .../backends/qblox/instrument_compilers.py    | 35 ++++++++-----------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index e4a39fb..f91c239 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -236,30 +236,25 @@ class QCMCompiler(BasebandModuleCompiler):
                             if channel_description is not None
                             else False
                         )
-                        if module_distortion_configs.get(output_number) is None:
-                            if isinstance(correction_cfg, HardwareDistortionCorrection):
-                                output_number = int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg,
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                            elif isinstance(correction_cfg, list):
-                                output_number = 2 * int(output_name.split("_")[-1])
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[0],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
-                                output_number += 1
-                                module_distortion_configs[output_number] = {
-                                    "distortion_corrections": correction_cfg[1],
-                                    "marker_debug_mode_enable": marker_debug_mode_enable,
-                                }
+                        if isinstance(correction_cfg, list):
+                            # A complex channel consists of two consecutive outputs.
+                            new_configs = {
+                                2 * output_number: correction_cfg[0],
+                                2 * output_number + 1: correction_cfg[1],
+                            }
                         else:
+                            new_configs = {output_number: correction_cfg}
+                        if not module_distortion_configs.keys().isdisjoint(new_configs):
                             raise ValueError(
-                                f"Attempting to set distortion corrections to"
-                                f"{output_name} using portclock {portclock}, while it"
+                                f"Attempting to set distortion corrections to "
+                                f"{output_name} using portclock {portclock}, while it "
                                 f"has previously already been set on this output."
                             )
+                        for output, distortion_corrections in new_configs.items():
+                            module_distortion_configs[output] = {
+                                "distortion_corrections": distortion_corrections,
+                                "marker_debug_mode_enable": marker_debug_mode_enable,
+                            }
         return module_distortion_configs
 
     def _configure_filter(
-- 
2.43.0


From 9b86da22315b965a1b283c5c879d7449f5104377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 069/101] fix: explicit description of QRC outputs

---
 quantify_scheduler/backends/qblox/instrument_compilers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/instrument_compilers.py b/quantify_scheduler/backends/qblox/instrument_compilers.py
index f91c239..28cf56d 100644
--- a/quantify_scheduler/backends/qblox/instrument_compilers.py
+++ b/quantify_scheduler/backends/qblox/instrument_compilers.py
@@ -357,6 +357,12 @@ class QRCCompiler(RFModuleCompiler):
         default_nco_en=True,
     )
 
+    def _configure_dc_latency_comp_for_output(self, output: int, dc_comp: int) -> None:
+        """The real-time filters of the QRC are not configured by this backend."""
+
+    def _configure_dc_latency_comp_for_marker(self, output: int, dc_comp: int) -> None:
+        """The real-time filters of the QRC are not configured by this backend."""
+
 
 class QTMCompiler(compiler_abc.ClusterModuleCompiler):
     """
-- 
2.43.0


From 9980e83c0dba9725562814b1913daaf101022698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 070/101] fix: preparing a QRC with a digital output

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 75820ce..9f4dc3c 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -476,7 +476,8 @@ class _AnalogModuleComponent(_ModuleComponentBase):
         """
         assert isinstance(settings, AnalogSequencerSettings)
 
-        if settings.nco_en:
+        # The frequency is undefined for digital channels of modules that always use the NCO.
+        if settings.nco_en and settings.modulation_freq is not None:
             self._nco_frequency_changed[seq_idx] = not parameter_value_same_as_cache(
                 self.instrument.sequencers[seq_idx],
                 "nco_freq",
-- 
2.43.0


From 47a407fd93d1eafe92de2e9a20d11c37e2ca1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 071/101] fix: attenuations written to the QRC

---
 .../instrument_coordinator/components/qblox.py               | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 9f4dc3c..f8df46e 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -1376,8 +1376,11 @@ class _QRCComponent(_RFComponent, _AnalogReadoutComponent):
         # configure attenuation
 
         for i in range(6):
-            if out_att := getattr(settings, f"out{i}_att") is not None:
+            if (out_att := getattr(settings, f"out{i}_att")) is not None:
                 self._set_parameter(self.instrument, f"out{i}_att", out_att)
+        for i in range(2):
+            if (in_att := getattr(settings, f"in{i}_att")) is not None:
+                self._set_parameter(self.instrument, f"in{i}_att", in_att)
 
     def _configure_lo_settings(
         self,
-- 
2.43.0


From bff2fb534030cb60201b527f01e4a5a65856839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:14 +0000
Subject: [PATCH 072/101] fix: sideband calibration is kept while the frequency
 does not change

---
 .../instrument_coordinator/components/qblox.py           | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index f8df46e..d32c006 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -557,11 +557,10 @@ class _AnalogModuleComponent(_ModuleComponentBase):
     def _configure_nco_mixer_calibration(
         self, seq_idx: int, settings: AnalogSequencerSettings
     ) -> None:
-        if (
-            settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE
-            and self._nco_frequency_changed[seq_idx]
-        ):
-            self.instrument.sequencers[seq_idx].sideband_cal()
+        if settings.auto_sideband_cal == SidebandCalEnum.ON_INTERM_FREQ_CHANGE:
+            # When the frequency did not change, the earlier calibration remains valid.
+            if self._nco_frequency_changed[seq_idx]:
+                self.instrument.sequencers[seq_idx].sideband_cal()
         else:
             if settings.mixer_corr_phase_offset_degree is not None:
                 self._set_parameter(
-- 
2.43.0


From ebcfa8379f3cf91e3d6952b5203de634d60c64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 073/101] fix: stopping the instrument coordinator stops every
 component

---
 .../instrument_coordinator.py                 | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 792dc48..8e05972 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -279,7 +279,9 @@ class InstrumentCoordinator(qcodes_base.Instrument):
         """
         Stops all components.
 
-        The components are stopped in the order in which they were added.
+        The components are stopped in the order in which they were added. When stopping
+        a component fails, the other components are still stopped before the (first)
+        error is raised.
 
         Parameters
         ----------
@@ -289,16 +291,18 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             components to stop.
 
         """
+        first_error: Exception | None = None
         for instr_name in self.components():
-            if allow_failure:
-                try:
-                    instrument = self.find_instrument(instr_name)
-                    instrument.stop()
-                except AttributeError as e:
-                    warnings.warn(f"When stopping instrument {instr_name}: Error \n {e}.")
-            else:
+            try:
                 instrument = self.find_instrument(instr_name)
                 instrument.stop()
+            except Exception as e:
+                if allow_failure and isinstance(e, AttributeError):
+                    warnings.warn(f"When stopping instrument {instr_name}: Error \n {e}.")
+                elif first_error is None:
+                    first_error = e
+        if first_error is not None:
+            raise first_error
 
     def retrieve_acquisition(self) -> Dataset:
         """
-- 
2.43.0


From f56f070b29102daf1f3c377283d0d32a68d174f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 074/101] fix: a failed prepare leaves no schedule that can be
 started

---
 .../instrument_coordinator/instrument_coordinator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 8e05972..88f86be 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -235,21 +235,23 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             If the schedule provided is not a valid :class:`.CompiledSchedule`.
 
         """
-        self._compiled_schedule = compiled_schedule
-        if not CompiledSchedule.is_valid(self._compiled_schedule):
-            raise TypeError(f"{self._compiled_schedule} is not a valid {CompiledSchedule.__name__}")
+        # Without a successful preparation, there is no schedule that can be started.
+        self._compiled_schedule = None
+        if not CompiledSchedule.is_valid(compiled_schedule):
+            raise TypeError(f"{compiled_schedule} is not a valid {CompiledSchedule.__name__}")
 
         # Adds a reference to the last prepared schedule this can be accessed through
         # the self.last_schedule property.
-        self._last_schedule = self._compiled_schedule
+        self._last_schedule = compiled_schedule
 
-        compiled_instructions = self._compiled_schedule["compiled_instructions"]
+        compiled_instructions = compiled_schedule["compiled_instructions"]
         # Compiled instructions are expected to follow the structure of a dict
         # with keys corresponding to instrument names (InstrumentCoordinatorComponent's)
         # and values containing instructions in the format specific to that type
         # of hardware. See also the specification in the CompiledSchedule class.
         for instrument_name, args in compiled_instructions.items():
             self.get_component(base.instrument_to_component_name(instrument_name)).prepare(args)
+        self._compiled_schedule = compiled_schedule
 
     def start(self) -> None:
         """
-- 
2.43.0


From e37db508db5244e5a6852fe19c3684fac1ab3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 075/101] fix: error for a missing component whose name
 contains 'ic_'

---
 .../instrument_coordinator/instrument_coordinator.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index 88f86be..dac273f 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -161,7 +161,7 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             # derivative of InstrumentCoordinatorComponentBase.
             return self.find_instrument(full_name)  # type: ignore
         raise KeyError(
-            f"'{full_name.split('ic_')[1]}' appears in the hardware config,"
+            f"'{full_name.removeprefix('ic_')}' appears in the hardware config,"
             f" but was not added as a component to InstrumentCoordinator '{self.name}'."
         )
 
-- 
2.43.0


From f3d1fe8fd8fc78f4ed99f86df51325fcedea03d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 076/101] fix: add_component reports objects that are no
 component

---
 .../instrument_coordinator/instrument_coordinator.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
index dac273f..c4cd084 100644
--- a/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
+++ b/quantify_scheduler/instrument_coordinator/instrument_coordinator.py
@@ -185,15 +185,15 @@ class InstrumentCoordinator(qcodes_base.Instrument):
             If :code:`component` is not an instance of the base component.
 
         """
-        if component.name in self.components():
-            raise ValueError(f"'{component.name}' has already been added!")
-
         if not isinstance(component, base.InstrumentCoordinatorComponentBase):
             raise TypeError(
                 f"{component!r} is not "
                 f"{base.__name__}.{base.InstrumentCoordinatorComponentBase.__name__}."
             )
 
+        if component.name in self.components():
+            raise ValueError(f"'{component.name}' has already been added!")
+
         self.components().append(component.name)  # list gets updated in place
 
     def remove_component(self, name: str) -> None:
-- 
2.43.0


From e0f302bf20ddeba80a31c4b2501886f5b679116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 077/101] fix: lazy_set of array values

---
 quantify_scheduler/instrument_coordinator/utility.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index 20a93e0..715b6b5 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -100,7 +100,14 @@ def parameter_value_same_as_cache(
     parameter = search_settable_param(instrument=instrument, nested_parameter_name=parameter_name)
     # parameter.cache() throws for non-gettable parameters if the cache is invalid.
     # This order prevents the exception.
-    return parameter.cache.valid and parameter.cache() == val
+    if not parameter.cache.valid:
+        return False
+    cached_value = parameter.cache()
+    if isinstance(cached_value, (np.ndarray, np.generic)) or isinstance(
+        val, (np.ndarray, np.generic)
+    ):
+        return np.array_equal(cached_value, val)
+    return cached_value == val
 
 
 def lazy_set(instrument: InstrumentBase, parameter_name: str, val: object) -> None:
-- 
2.43.0


From 66194d0c9f7b9df8fc811729be8af7d1fc2b4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 078/101] fix: lazy_set of functions that have no cache

---
 quantify_scheduler/instrument_coordinator/utility.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index 715b6b5..f9c1965 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -125,9 +125,10 @@ def lazy_set(instrument: InstrumentBase, parameter_name: str, val: object) -> No
 
     """
     parameter = search_settable_param(instrument=instrument, nested_parameter_name=parameter_name)
-    # parameter.cache() throws for non-gettable parameters if the cache is invalid.
-    # This order prevents the exception.
-    if not parameter_value_same_as_cache(instrument, parameter_name, val):
+    # Functions do not have a cache, so these are always called.
+    if not hasattr(parameter, "cache") or not parameter_value_same_as_cache(
+        instrument, parameter_name, val
+    ):
         parameter(val)
     else:
         logger.info(f"Lazy set skipped setting parameter {instrument.name}.{parameter_name}")
-- 
2.43.0


From 5551f167fee63374315c34bc7d50dbfd27e99e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 079/101] fix: generic component sets functions in force mode

---
 quantify_scheduler/instrument_coordinator/components/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/generic.py b/quantify_scheduler/instrument_coordinator/components/generic.py
index 1bc202f..4284109 100644
--- a/quantify_scheduler/instrument_coordinator/components/generic.py
+++ b/quantify_scheduler/instrument_coordinator/components/generic.py
@@ -124,7 +124,7 @@ class GenericInstrumentCoordinatorComponent(base.InstrumentCoordinatorComponentB
                     param_to_set = util.search_settable_param(
                         instrument=instrument, nested_parameter_name=parameter_name
                     )
-                    param_to_set.set(value=value)
+                    param_to_set(value)
                 else:
                     util.lazy_set(instrument=instrument, parameter_name=parameter_name, val=value)
             except ValueError as e:
-- 
2.43.0


From a64d06541c612c327b1cb1f757c7cfda70abf1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 080/101] fix: ScheduleGettable compiles with the current
 settings and is uninitialized until prepared

---
 quantify_scheduler/gettables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/gettables.py b/quantify_scheduler/gettables.py
index 1b3a324..0fe4be7 100644
--- a/quantify_scheduler/gettables.py
+++ b/quantify_scheduler/gettables.py
@@ -163,6 +163,8 @@ class ScheduleGettable:
             The compiled schedule.
 
         """
+        # generate a schedule using the evaluated keyword arguments dict
+        self._evaluated_sched_kwargs = _evaluate_parameter_dict(self.schedule_kwargs)
         schedule = self.schedule_function(
             **self._evaluated_sched_kwargs,
             repetitions=self.quantum_device.cfg_sched_repetitions(),
@@ -183,9 +185,8 @@ class ScheduleGettable:
         hardware using the instrument coordinator.
         """
         logger.debug("Initializing schedule gettable.")
-        self._evaluated_sched_kwargs = _evaluate_parameter_dict(self.schedule_kwargs)
+        self.is_initialized = False
 
-        # generate a schedule using the evaluated keyword arguments dict
         self.compile()
 
         instr_coordinator = self.quantum_device.instr_instrument_coordinator.get_instr()
-- 
2.43.0


From 2a348ea590746f222b494c006a44b519fc024f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 081/101] fix: profiled gettable returns the compiled schedule
 and honours allow_failure

---
 quantify_scheduler/gettables_profiled.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantify_scheduler/gettables_profiled.py b/quantify_scheduler/gettables_profiled.py
index 3cb2981..37287eb 100644
--- a/quantify_scheduler/gettables_profiled.py
+++ b/quantify_scheduler/gettables_profiled.py
@@ -124,8 +124,8 @@ class ProfiledInstrumentCoordinator(InstrumentCoordinator):
         self.parent_ic.start()
 
     @profiler
-    def stop(self, allow_failure: bool = False) -> None:  # noqa: ARG002 Not used
-        self.parent_ic.stop()
+    def stop(self, allow_failure: bool = False) -> None:
+        self.parent_ic.stop(allow_failure=allow_failure)
 
     @profiler
     def retrieve_acquisition(self) -> Dataset:
@@ -159,9 +159,9 @@ class ProfiledScheduleGettable(ScheduleGettable):
         self.quantum_device.instr_instrument_coordinator(self.profiled_instr_coordinator.name)
 
     @profiler
-    def compile(self) -> None:
+    def compile(self) -> CompiledSchedule:
         """Overwrite compile step for profiling."""
-        super().compile()
+        return super().compile()
 
     def close(self) -> None:
         """Cleanup new profiling instruments to avoid future conflicts."""
-- 
2.43.0


From f6ab37e1365ba21b8be658ba863fd86fab2e7ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 082/101] fix: feedback triggers of an earlier program are
 switched off

---
 .../components/qblox.py                       | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index d32c006..31df8d0 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -902,12 +902,13 @@ class _AnalogReadoutComponent(_AnalogModuleComponent):
                 "thresholded_acq_trigger_address",
                 settings.thresholded_acq_trigger_write_address,
             )
+        # Always set, to prevent that triggers are sent because of an earlier program.
+        self._set_parameter(
+            self.instrument.sequencers[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
         if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.sequencers[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
             self._set_parameter(
                 self.instrument.sequencers[seq_idx],
                 "thresholded_acq_trigger_invert",
@@ -1637,12 +1638,12 @@ class _QTMComponent(_ModuleComponentBase):
             "thresholded_acq_trigger_address_invalid",
             settings.thresholded_acq_trigger_write_address_invalid,
         )
-        if settings.thresholded_acq_trigger_write_en is not None:
-            self._set_parameter(
-                self.instrument.io_channels[seq_idx],
-                "thresholded_acq_trigger_en",
-                settings.thresholded_acq_trigger_write_en,
-            )
+        # Always set, to prevent that triggers are sent because of an earlier program.
+        self._set_parameter(
+            self.instrument.io_channels[seq_idx],
+            "thresholded_acq_trigger_en",
+            bool(settings.thresholded_acq_trigger_write_en),
+        )
 
     def clear_data(self) -> None:
         """Clears remaining data on the module. Module type specific function."""
-- 
2.43.0


From f8710c037f7eb97256b7a1de13cda0946ec240cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:26 +0000
Subject: [PATCH 083/101] fix: modules without a program do not take part in
 synchronization

---
 quantify_scheduler/instrument_coordinator/components/qblox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 31df8d0..0ab606b 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -2945,6 +2945,10 @@ class ClusterComponent(base.InstrumentCoordinatorComponentBase):
             module_programs=without(program, ["settings", "acq_channels_data", "repetitions"]),
             settings=cluster_settings,
         )
+        for name, comp in self._cluster_modules.items():
+            if name not in self._program.module_programs:
+                # Prevent hanging on next run if the module is not used.
+                comp.disable_sync()
         for name, comp_options in self._program.module_programs.items():
             if name not in self._cluster_modules:
                 raise KeyError(
-- 
2.43.0


From d5b82432706d398d6472adfd341e1c935c448c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 084/101] fix: trigger settings of an earlier program are reset
 to their defaults

---
 .../components/qblox.py                       | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index 0ab606b..e5aa754 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -396,18 +396,20 @@ class _ModuleComponentBase(
         self._set_parameter(self.instrument.sequencers[seq_idx], "sequence", settings.sequence)
 
         for address, trigger_settings in settings.thresholded_acq_trigger_read_settings.items():
-            if trigger_settings.thresholded_acq_trigger_invert is not None:
-                self._set_parameter(
-                    self.instrument.sequencers[seq_idx],
-                    f"trigger{address}_threshold_invert",
-                    trigger_settings.thresholded_acq_trigger_invert,
-                )
-            if trigger_settings.thresholded_acq_trigger_count is not None:
-                self._set_parameter(
-                    self.instrument.sequencers[seq_idx],
-                    f"trigger{address}_count_threshold",
-                    trigger_settings.thresholded_acq_trigger_count,
-                )
+            # Settings that are not specified are set to the default of the instrument, to
+            # prevent that values of an earlier program are used.
+            invert = trigger_settings.thresholded_acq_trigger_invert
+            self._set_parameter(
+                self.instrument.sequencers[seq_idx],
+                f"trigger{address}_threshold_invert",
+                False if invert is None else invert,
+            )
+            count = trigger_settings.thresholded_acq_trigger_count
+            self._set_parameter(
+                self.instrument.sequencers[seq_idx],
+                f"trigger{address}_count_threshold",
+                1 if count is None else count,
+            )
 
     def arm_all_sequencers_in_program(self) -> None:
         """Arm all the sequencers that are part of the program."""
-- 
2.43.0


From 9b67e92507eeac6ab191bd54fcd1975d955471e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 085/101] fix: a program modified in place is uploaded again

---
 .../instrument_coordinator/components/qblox.py             | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index e5aa754..c3fbd01 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -9,6 +9,7 @@ import os
 import re
 from abc import ABC, abstractmethod
 from collections import namedtuple
+from copy import deepcopy
 from dataclasses import dataclass
 from functools import partial
 from math import isnan
@@ -393,7 +394,11 @@ class _ModuleComponentBase(
         """
         self._set_parameter(self.instrument.sequencers[seq_idx], "sync_en", settings.sync_en)
 
-        self._set_parameter(self.instrument.sequencers[seq_idx], "sequence", settings.sequence)
+        # A copy, because the cached value is compared to the sequence of the next program, which
+        # may be the same object with other content.
+        self._set_parameter(
+            self.instrument.sequencers[seq_idx], "sequence", deepcopy(settings.sequence)
+        )
 
         for address, trigger_settings in settings.thresholded_acq_trigger_read_settings.items():
             # Settings that are not specified are set to the default of the instrument, to
-- 
2.43.0


From ffff7510df3683225fd2735f1795366f27360a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 086/101] fix: the cached value of a parameter is discarded
 when setting it fails

---
 .../components/generic.py                     |  2 +-
 .../components/qblox.py                       |  5 ++--
 .../instrument_coordinator/utility.py         | 27 +++++++++++++++++--
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/quantify_scheduler/instrument_coordinator/components/generic.py b/quantify_scheduler/instrument_coordinator/components/generic.py
index 4284109..021294b 100644
--- a/quantify_scheduler/instrument_coordinator/components/generic.py
+++ b/quantify_scheduler/instrument_coordinator/components/generic.py
@@ -124,7 +124,7 @@ class GenericInstrumentCoordinatorComponent(base.InstrumentCoordinatorComponentB
                     param_to_set = util.search_settable_param(
                         instrument=instrument, nested_parameter_name=parameter_name
                     )
-                    param_to_set(value)
+                    util.set_parameter(param_to_set, value)
                 else:
                     util.lazy_set(instrument=instrument, parameter_name=parameter_name, val=value)
             except ValueError as e:
diff --git a/quantify_scheduler/instrument_coordinator/components/qblox.py b/quantify_scheduler/instrument_coordinator/components/qblox.py
index c3fbd01..2203e49 100644
--- a/quantify_scheduler/instrument_coordinator/components/qblox.py
+++ b/quantify_scheduler/instrument_coordinator/components/qblox.py
@@ -77,6 +77,7 @@ from quantify_scheduler.instrument_coordinator.utility import (
     lazy_set,
     parameter_value_same_as_cache,
     search_settable_param,
+    set_parameter,
 )
 from quantify_scheduler.schedules.schedule import AcquisitionChannelsData
 
@@ -266,7 +267,7 @@ class _ModuleComponentBase(
                 return
             raise e
         if self.force_set_parameters():
-            instrument.parameters[parameter_name].set(val)
+            set_parameter(instrument.parameters[parameter_name], val)
         else:
             lazy_set(instrument, parameter_name, val)
 
@@ -2845,7 +2846,7 @@ class ClusterComponent(base.InstrumentCoordinatorComponentBase):
 
         """
         if self.force_set_parameters():
-            instrument.set(parameter_name, val)
+            set_parameter(instrument.parameters[parameter_name], val)
         else:
             lazy_set(instrument, parameter_name, val)
 
diff --git a/quantify_scheduler/instrument_coordinator/utility.py b/quantify_scheduler/instrument_coordinator/utility.py
index f9c1965..a92bf71 100644
--- a/quantify_scheduler/instrument_coordinator/utility.py
+++ b/quantify_scheduler/instrument_coordinator/utility.py
@@ -13,7 +13,7 @@ from qcodes.parameters.parameter import Parameter
 from xarray import DataArray
 
 if TYPE_CHECKING:
-    from collections.abc import Hashable
+    from collections.abc import Callable, Hashable
 
     from qcodes.instrument.base import InstrumentBase
 
@@ -110,6 +110,29 @@ def parameter_value_same_as_cache(
     return cached_value == val
 
 
+def set_parameter(parameter: Parameter | Callable, val: object) -> None:
+    """
+    Set the value of a parameter (or call a function).
+
+    When this fails, the state of the instrument is unknown. Therefore, the cache of the
+    parameter is invalidated, so that :func:`~.lazy_set` does not skip setting it later.
+
+    Parameters
+    ----------
+    parameter
+        The parameter to set.
+    val
+        The new value of the parameter.
+
+    """
+    try:
+        parameter(val)
+    except Exception:
+        if hasattr(parameter, "cache"):
+            parameter.cache.invalidate()
+        raise
+
+
 def lazy_set(instrument: InstrumentBase, parameter_name: str, val: object) -> None:
     """
     Set the value of a QCoDeS parameter only if it is different from the value in cache.
@@ -129,7 +152,7 @@ def lazy_set(instrument: InstrumentBase, parameter_name: str, val: object) -> No
     if not hasattr(parameter, "cache") or not parameter_value_same_as_cache(
         instrument, parameter_name, val
     ):
-        parameter(val)
+        set_parameter(parameter, val)
     else:
         logger.info(f"Lazy set skipped setting parameter {instrument.name}.{parameter_name}")
 
-- 
2.43.0


From c14ddc2246621b7cf314feb6cbfa2f334bc40f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 087/101] fix: nv_dark_esr_sched_nco accepts frequencies with
 equal rounded labels

---
 quantify_scheduler/schedules/spectroscopy_schedules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/spectroscopy_schedules.py b/quantify_scheduler/schedules/spectroscopy_schedules.py
index f97b5ff..a86f306 100644
--- a/quantify_scheduler/schedules/spectroscopy_schedules.py
+++ b/quantify_scheduler/schedules/spectroscopy_schedules.py
@@ -593,10 +593,12 @@ def nv_dark_esr_sched_nco(
     for idx, spec_freq in enumerate(spec_frequencies):
         sched.add(
             SetClockFrequency(clock=spec_clock, clock_freq_new=spec_freq),
-            label=f"set_freq ({spec_clock} {spec_freq:e} Hz)",
+            label=f"set_freq {idx} ({spec_clock} {spec_freq:e} Hz)",
         )
         sched.add(Reset(device_element), label=f"Reset {idx}")
-        sched.add(SpectroscopyOperation(device_element), label=f"Spectroscopy ({spec_freq:e} Hz)")
+        sched.add(
+            SpectroscopyOperation(device_element), label=f"Spectroscopy {idx} ({spec_freq:e} Hz)"
+        )
         sched.add(Measure(device_element), label=f"Measure {idx}")
         sched.add(CRCount(device_element), label=f"CRCount post {idx}")
 
-- 
2.43.0


From 7c481c2427326774261081f1b1a3fafb59517044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 088/101] fix: rabi_sched reports incompatible lists of
 amplitudes and durations

---
 quantify_scheduler/schedules/timedomain_schedules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/schedules/timedomain_schedules.py b/quantify_scheduler/schedules/timedomain_schedules.py
index 4667741..b3923d1 100644
--- a/quantify_scheduler/schedules/timedomain_schedules.py
+++ b/quantify_scheduler/schedules/timedomain_schedules.py
@@ -79,8 +79,8 @@ def rabi_sched(
         durations = np.ones(np.shape(amps)) * durations
     elif len(durations) != len(amps):
         raise ValueError(
-            f"Shapes of pulse_amplitude ({pulse_amp.shape}) and "
-            f"pulse_duration ({pulse_duration.shape}) are incompatible."
+            f"Shapes of pulse_amplitude ({amps.shape}) and "
+            f"pulse_duration ({durations.shape}) are incompatible."
         )
 
     if port is None:
-- 
2.43.0


From d7d796b9813398bb42879f697ed1be519d36d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 089/101] fix: allxy_sched refuses index 21 and accepts numpy
 integers

---
 quantify_scheduler/schedules/timedomain_schedules.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantify_scheduler/schedules/timedomain_schedules.py b/quantify_scheduler/schedules/timedomain_schedules.py
index b3923d1..1f353c4 100644
--- a/quantify_scheduler/schedules/timedomain_schedules.py
+++ b/quantify_scheduler/schedules/timedomain_schedules.py
@@ -405,7 +405,7 @@ def allxy_sched(
 
     """
     device_element = qubit
-    if isinstance(element_select_idx, int):
+    if isinstance(element_select_idx, (int, np.integer)):
         element_select_idx = [element_select_idx]
 
     # all combinations of Idle, X90, Y90, X180 and Y180 gates that are part of
@@ -437,9 +437,9 @@ def allxy_sched(
 
     for i, elt_idx in enumerate(element_select_idx):
         # check index valid
-        if elt_idx > len(allxy_combinations) or elt_idx < 0:
+        if elt_idx >= len(allxy_combinations) or elt_idx < 0:
             raise ValueError(
-                f"Invalid index selected: {elt_idx}. Index must be in range 0 to 21 inclusive."
+                f"Invalid index selected: {elt_idx}. Index must be in range 0 to 20 inclusive."
             )
 
         (th0, phi0), (th1, phi1) = allxy_combinations[elt_idx]
-- 
2.43.0


From dc8a0ba00ab8f776f3c5cd63e0467c95bd1e4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 090/101] fix: levels of digital outputs can change at the
 start of a pulse

A schedule starting with a microwave pulse was refused with automatic RF
switching, because the switch was toggled after the pulse at the same time.
---
 .../backends/qblox/compiler_abc.py            | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/compiler_abc.py b/quantify_scheduler/backends/qblox/compiler_abc.py
index 92e9736..af25b4f 100644
--- a/quantify_scheduler/backends/qblox/compiler_abc.py
+++ b/quantify_scheduler/backends/qblox/compiler_abc.py
@@ -1154,7 +1154,39 @@ class SequencerCompiler(ABC):
             else:
                 new_op_strategies.append(op_strategy)
 
-        return new_op_strategies
+        return SequencerCompiler._move_digital_levels_before_io(new_op_strategies)
+
+    @staticmethod
+    def _move_digital_levels_before_io(
+        op_strategies: list[IOperationStrategy],
+    ) -> list[IOperationStrategy]:
+        """
+        Order the operations, and move changes of a digital level before pulses and
+        acquisitions that start at the same time.
+
+        The pulse or acquisition then also updates the level, which would otherwise
+        only be possible after it.
+        """
+        ordered: list[IOperationStrategy] = []
+        for op_strategy in sorted(
+            op_strategies, key=lambda op: helpers.to_grid_time(op.operation_info.timing)
+        ):
+            index = len(ordered)
+            if isinstance(op_strategy, DigitalOutputStrategy):
+                timing = helpers.to_grid_time(op_strategy.operation_info.timing)
+                for i, other in reversed(list(enumerate(ordered))):
+                    other_info = other.operation_info
+                    if (
+                        helpers.to_grid_time(other_info.timing) != timing
+                        or isinstance(other, (DigitalOutputStrategy, LoopStrategy))
+                        or isinstance(other, (ConditionalStrategy, ControlFlowReturnStrategy))
+                        or other_info.is_parameter_update
+                    ):
+                        break
+                    if other_info.is_real_time_io_operation:
+                        index = i
+            ordered.insert(index, op_strategy)
+        return ordered
 
     @staticmethod
     def _generate_waveforms_and_program_dict(
-- 
2.43.0


From 1f8d9b252f7fc1de1922be8d85835d943b181207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 091/101] fix: automatic RF switch stays on across the
 boundaries of control flow

A toggle inserted into the body of a loop was repeated in every iteration,
which turned the switch off during pulses of the later iterations.
---
 .../backends/qblox/auto_rf_switch.py          | 119 +++++++++++++++++-
 1 file changed, 117 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 07b3047..ff47c98 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -9,6 +9,8 @@ from collections import defaultdict
 from dataclasses import dataclass
 from typing import TYPE_CHECKING
 
+from quantify_scheduler.backends.qblox import constants
+
 if TYPE_CHECKING:
     from quantify_scheduler.backends.graph_compilation import CompilationConfig
     from quantify_scheduler.schedules.schedule import Schedule
@@ -54,6 +56,18 @@ class MicrowavePulseInfo:
         return self.abs_time + self.duration
 
 
+@dataclass
+class ControlFlowBlock:
+    """Time range of a control flow operation."""
+
+    abs_time: float
+    """Absolute start time of the control flow operation."""
+    body_end_time: float
+    """Absolute end time of (the first iteration of) the body."""
+    end_time: float
+    """Absolute end time of the control flow operation."""
+
+
 def auto_rf_switch_dressing(
     schedule: Schedule,
     config: CompilationConfig,
@@ -127,11 +141,12 @@ def auto_rf_switch_dressing(
     for pulse in all_pulses:
         pulses_by_port_clock[(pulse.port, pulse.clock)].append(pulse)
 
+    control_flow_blocks = _collect_control_flow_blocks(schedule, time_offset=0.0)
+
     # For each port-clock, merge adjacent pulses and insert RF switch operations
     # on the root schedule only.
     for (port, clock), pulses in pulses_by_port_clock.items():
-        pulses_sorted = sorted(pulses, key=lambda p: p.abs_time)
-        windows = _merge_pulses_into_windows(pulses_sorted, ramp_buffer)
+        windows = _merge_around_control_flow(pulses, control_flow_blocks, ramp_buffer)
         for window_start, window_end in windows:
             _insert_rf_switch_operation(
                 schedule=schedule,
@@ -444,6 +459,106 @@ def _merge_pulses_into_windows(
     return windows
 
 
+def _collect_control_flow_blocks(schedule: Schedule, time_offset: float) -> list[ControlFlowBlock]:
+    """
+    Recursively collect the time ranges of all control flow operations.
+
+    Parameters
+    ----------
+    schedule
+        The schedule to collect from.
+    time_offset
+        The global absolute time offset for this schedule's schedulables.
+
+    Returns
+    -------
+    list[ControlFlowBlock]
+        Control flow blocks, with global absolute times.
+
+    """
+    # Import here to avoid circular imports
+    from quantify_scheduler.operations.control_flow_library import ControlFlowOperation
+    from quantify_scheduler.schedules.schedule import ScheduleBase
+
+    blocks: list[ControlFlowBlock] = []
+    for schedulable in schedule.schedulables.values():
+        operation = schedule.operations.get(schedulable["operation_id"])
+        abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
+        if isinstance(operation, ControlFlowOperation):
+            blocks.append(
+                ControlFlowBlock(
+                    abs_time=abs_time,
+                    body_end_time=abs_time + operation.body.duration,
+                    end_time=abs_time + operation.duration,
+                )
+            )
+            operation = operation.body
+        if isinstance(operation, ScheduleBase):
+            blocks.extend(_collect_control_flow_blocks(operation, abs_time))
+    return blocks
+
+
+def _merge_around_control_flow(
+    pulses: list[MicrowavePulseInfo],
+    blocks: list[ControlFlowBlock],
+    ramp_buffer: float,
+) -> list[tuple[float, float]]:
+    """
+    Merge the pulses of one port-clock combination into RF switch windows.
+
+    The switch can only be toggled within the body of a control flow operation when it
+    is turned on and off again within (each execution of) that body. When a window
+    extends beyond the body, the switch stays on during the whole control flow
+    operation.
+
+    Parameters
+    ----------
+    pulses
+        List of microwave pulses.
+    blocks
+        The control flow operations in the schedule.
+    ramp_buffer
+        Buffer time for RF switch.
+
+    Returns
+    -------
+    list[tuple[float, float]]
+        List of (start_time, end_time) tuples for each RF switch window, not including
+        the ramp buffer.
+
+    """
+    atol = 1e-12
+    # Toggling needs to be separated from the start and end of the body.
+    margin = constants.MIN_TIME_BETWEEN_OPERATIONS * 1e-9 - atol
+
+    def is_crossed(block: ControlFlowBlock, window: tuple[float, float]) -> bool:
+        start, end = max(0.0, window[0] - ramp_buffer), window[1] + ramp_buffer
+        is_outside = end <= block.abs_time + atol or start >= block.end_time - atol
+        is_around = start <= block.abs_time - margin and end >= block.end_time + margin
+        is_inside = start >= block.abs_time + margin and end <= block.body_end_time - margin
+        return not (is_outside or is_around or is_inside)
+
+    pulses = list(pulses)
+    blocks = list(blocks)
+    while True:
+        pulses.sort(key=lambda p: p.abs_time)
+        windows = _merge_pulses_into_windows(pulses, ramp_buffer)
+        crossed = [b for b in blocks if any(is_crossed(b, w) for w in windows)]
+        if not crossed:
+            return windows
+        blocks = [b for b in blocks if b not in crossed]
+        pulses.extend(
+            MicrowavePulseInfo(
+                schedulable_key="control_flow_window",
+                abs_time=block.abs_time,
+                duration=block.end_time - block.abs_time,
+                port=pulses[0].port,
+                clock=pulses[0].clock,
+            )
+            for block in crossed
+        )
+
+
 def _insert_rf_switch_operation(
     schedule: Schedule,
     port: str,
-- 
2.43.0


From 48a9b382b59f1608691e7ad8f716320f16340617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 092/101] fix: pulse diagrams shifted pulses that start before
 the plotted range and modified numerical pulses

The waveform was evaluated relative to the clipped start time, so that a pulse
partially outside of x_range was shifted (or compressed) instead of cut, and
the t_samples of the drawn pulse were overwritten in the schedule.
---
 .../schedules/_visualization/pulse_diagram.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 17f9aa6..bfab4fe 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -230,30 +230,35 @@ def get_sampled_pulses(
 
             if t1 < x_min or t0 > x_max:
                 continue
-            t0 = max(x_min, t0)
-            t1 = min(x_max, t1)
 
             t = np.arange(t0, t1 - 0.5 / sampling_rate, 1 / sampling_rate)
             if len(t) == 0:
                 continue
 
+            op_info = info.op_info
             if (
-                info.op_info["wf_func"]
-                == "quantify_scheduler.waveforms.interpolated_complex_waveform"
+                op_info["wf_func"] == "quantify_scheduler.waveforms.interpolated_complex_waveform"
             ):
-                info.op_info["t_samples"] = (
-                    np.asarray(info.op_info["t_samples"]) - info.op_info["t_samples"][0]
-                )
+                # The sampled schedule itself must not be modified.
+                t_samples = np.asarray(op_info["t_samples"])
+                op_info = {**op_info, "t_samples": t_samples - t_samples[0]}
 
             # Add the final datapoint for nicer plots
             t = np.append(t, t[-1] + 0.99 / sampling_rate)
 
             waveform = exec_waveform_function(
-                wf_func=info.op_info["wf_func"],
+                wf_func=op_info["wf_func"],
                 t=t - t[0],
-                pulse_info=info.op_info,
+                pulse_info=op_info,
             )
 
+            # Filter in time: Keep one point before and one point after the limit (if
+            # possible).
+            start_idx = max(np.searchsorted(t, x_min) - 1, 0)
+            stop_idx = np.searchsorted(t, x_max, side="right") + 1
+            t = t[start_idx:stop_idx]
+            waveform = waveform[start_idx:stop_idx]
+
             # Add 0 amplitude points before and after the pulse such that interpolation
             # in sum_waveforms looks correct visually.
             t = np.concatenate(
-- 
2.43.0


From 6dd7c3743057522122a5078c8a50f35ec8ebf497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 093/101] fix: voltage offsets in pulse diagrams that are not
 in time order, or outside the plotted range

Offsets are sorted in time (the last of several at the same time remains),
nothing is drawn when all of them are outside x_range (StopIteration), a
single offset can be modulated (IndexError) and the requested sampling rate
is used for modulated offsets.
---
 .../schedules/_visualization/pulse_diagram.py | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index bfab4fe..913976f 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -126,8 +126,14 @@ def get_sampled_pulses_from_voltage_offsets(
         for clock, info_list in offset_info.items():
             time: list[float] = []
             signal: list[float] = []
-            for info in info_list:
-                if len(time) > 0:
+            # Sort in time. Offsets that are set at the same time keep their order.
+            for info in sorted(info_list, key=lambda info: round(info.time, ndigits=12)):
+                if len(time) > 0 and info.time - time[-1] < 0.01 / sampling_rate:
+                    # The last one of the offsets set at the same time is the one that
+                    # remains.
+                    time.pop()
+                    signal.pop()
+                elif len(time) > 0:
                     # Each offset is a point, so the previous offset is extended to a
                     # line before adding the next.
                     # Subtract a small number from the time so that interpolation (in
@@ -136,14 +142,18 @@ def get_sampled_pulses_from_voltage_offsets(
                     signal.append(signal[-1])
                 time.append(info.time)
                 signal.append(info.op_info["offset_path_I"] + 1j * info.op_info["offset_path_Q"])
-            if signal[-1] != 0:
+            end_time = schedule.duration / schedule.repetitions
+            if signal[-1] != 0 and end_time > time[-1]:
                 # If the offset is not 0, let it run to the end of the schedule.
-                time.append(schedule.duration / schedule.repetitions)
+                time.append(end_time)
                 signal.append(signal[-1])
 
             # Filter in time: Keep one point before and one point after the limit (if
             # possible).
-            start_idx = next(i for i, v in enumerate(time) if v > x_min)
+            start_idx = next((i for i, v in enumerate(time) if v > x_min), len(time))
+            if start_idx == len(time) or time[0] > x_max:
+                # Everything is outside the limits.
+                continue
             if start_idx > 0:
                 start_idx -= 1
             try:
@@ -155,10 +165,8 @@ def get_sampled_pulses_from_voltage_offsets(
 
             time = np.array(time)
             signal = np.array(signal)
-            if modulation != "off":
-                new_time = np.linspace(
-                    time[0], time[-1], round((time[-1] - time[0]) * sampling_rate) + 1
-                )
+            if modulation != "off" and len(time) > 1:
+                new_time = np.union1d(time, np.arange(time[0], time[-1], 1 / sampling_rate))
                 signal = interpolated_complex_waveform(t=new_time, samples=signal, t_samples=time)
                 time = new_time
             if modulation == "clock":
@@ -477,6 +485,7 @@ def sample_schedule(
         x_max=x_max,
         modulation=modulation,
         modulation_if=modulation_if,
+        sampling_rate=sampling_rate,
     )
 
     sampled_pulses = get_sampled_pulses(
-- 
2.43.0


From a89ba534e1b69bf4751ba5250ed36454e248f5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:07 +0000
Subject: [PATCH 094/101] fix: combined pulse diagrams drew a slope before a
 voltage offset

The first point of a voltage offset was connected to the last point of the
preceding pulse when combining waveforms on the same port.
---
 .../schedules/_visualization/pulse_diagram.py | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/quantify_scheduler/schedules/_visualization/pulse_diagram.py b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
index 913976f..b6e175b 100644
--- a/quantify_scheduler/schedules/_visualization/pulse_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/pulse_diagram.py
@@ -353,6 +353,28 @@ def merge_pulses_and_offsets(operations: list[SampledPulse]) -> SampledPulse:
     )
 
 
+def _add_zeros_before_offsets(
+    operations: list[SampledPulse], sampling_rate: float
+) -> list[SampledPulse]:
+    """
+    Let each ``SampledPulse`` that does not start at zero (a voltage offset) start with a
+    step, also if the preceding time point used by the other pulses is much earlier.
+    """
+    all_times = np.concatenate([op.time for op in operations])
+    result = []
+    for op in operations:
+        start = op.time[0]
+        earlier = all_times[all_times < start - 0.005 / sampling_rate]
+        if op.signal[0] != 0 and len(earlier) > 0 and earlier.max() < start - 0.02 / sampling_rate:
+            op = SampledPulse(
+                time=np.concatenate(([start - 0.01 / sampling_rate], op.time)),
+                signal=np.concatenate(([0], op.signal)),
+                label=op.label,
+            )
+        result.append(op)
+    return result
+
+
 def _extract_schedule_infos(
     operation: Operation | ScheduleBase,
     port_list: list[str],
@@ -501,7 +523,9 @@ def sample_schedule(
 
     if combine_waveforms_on_same_port:
         for port, pulses in sampled_pulses.copy().items():
-            sampled_pulses[port] = [merge_pulses_and_offsets(pulses)]
+            sampled_pulses[port] = [
+                merge_pulses_and_offsets(_add_zeros_before_offsets(pulses, sampling_rate))
+            ]
 
     sampled_acqs = get_sampled_acquisitions(acq_infos)
 
-- 
2.43.0


From e55f621786aa42da5dac13d1e14a597fea6dda61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:59 +0000
Subject: [PATCH 095/101] fix: inline Q1ASM accepts negative numbers

---
 quantify_scheduler/backends/qblox/qasm_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantify_scheduler/backends/qblox/qasm_program.py b/quantify_scheduler/backends/qblox/qasm_program.py
index 6efc13e..50e125a 100644
--- a/quantify_scheduler/backends/qblox/qasm_program.py
+++ b/quantify_scheduler/backends/qblox/qasm_program.py
@@ -730,7 +730,7 @@ class QASMProgram:
         white_space = "[ \t]+"  # Space and tabs
         # label has to start with a letter or underscore
         label_regex = f"[a-zA-Z_]{alpha_num_regex}*"
-        argument_regex = f"(R?[0-9]+|(@{label_regex}))"
+        argument_regex = f"((R|-)?[0-9]+|(@{label_regex}))"
         argument_list_regex = f"{white_space}({argument_regex}+,({white_space})?)*{argument_regex}"
         instruction_regex = "[a-z_]+"  # All instructions are snake_case
         comment_regex = "#(?P<comment>.*)"
-- 
2.43.0


From b2720087c0ccf56a1e0b674127cf752c10d7d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:59 +0000
Subject: [PATCH 096/101] fix: an inline Q1ASM operation with waveforms can be
 played more than once

---
 .../operation_handling/q1asm_injection_strategy.py     | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py b/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
index 4651d9a..68e22fd 100644
--- a/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
+++ b/quantify_scheduler/backends/qblox/operation_handling/q1asm_injection_strategy.py
@@ -6,6 +6,8 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any
 
+import numpy as np
+
 from quantify_scheduler.backends.qblox.operation_handling.base import IOperationStrategy
 from quantify_scheduler.backends.qblox.qasm_program import QASMProgram
 
@@ -49,8 +51,12 @@ class Q1ASMInjectionStrategy(IOperationStrategy):
         """
         op_info = self.operation_info
         waveforms = op_info.data["waveforms"]
-        for waveform in waveforms:
-            if waveform in wf_dict:
+        for waveform, definition in waveforms.items():
+            # The same operation can be played more than once.
+            if waveform in wf_dict and not (
+                wf_dict[waveform]["index"] == definition["index"]
+                and np.array_equal(wf_dict[waveform]["data"], definition["data"])
+            ):
                 raise RuntimeError(
                     f"Duplicate waveform name {waveform} in list of defined waveforms."
                 )
-- 
2.43.0


From be13546ab8acc5ad543cfe849c84b988a1277925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 097/101] fix: circuit diagrams give a loop of a loop the
 length of its body

The ideal duration of a control flow whose body is a control flow was 1, so
that operations after it were drawn on top of the operations in it.
---
 quantify_scheduler/compilation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/quantify_scheduler/compilation.py b/quantify_scheduler/compilation.py
index 50ff3d5..0fd7c08 100644
--- a/quantify_scheduler/compilation.py
+++ b/quantify_scheduler/compilation.py
@@ -340,6 +340,13 @@ def _determine_default_ref_schedulables_by_schedulable(
     ]
 
 
+def _get_depth(operation: Operation | Schedule) -> float:
+    """Return the ideal duration of an operation, where a control flow is as long as its body."""
+    while isinstance(operation, ControlFlowOperation):
+        operation = operation.body
+    return operation.get("depth", 1)
+
+
 def _get_start_time(
     schedule: Schedule,
     t_constr: TimingConstraint,
@@ -355,11 +362,7 @@ def _get_start_time(
     if time_unit == "physical":
         duration_ref_op = ref_op.duration
     else:
-        duration_ref_op = (
-            ref_op.body.get("depth", 1)
-            if isinstance(ref_op, ControlFlowOperation)
-            else ref_op.get("depth", 1)
-        )
+        duration_ref_op = _get_depth(ref_op)
     # Type checker does not know that ref_op.duration is not None if time_unit ==
     # "physical"
     assert duration_ref_op is not None
@@ -377,11 +380,7 @@ def _get_start_time(
     if time_unit == "physical":
         duration_new_op = curr_op.duration
     else:
-        duration_new_op = (
-            curr_op.body.get("depth", 1)
-            if isinstance(curr_op, ControlFlowOperation)
-            else curr_op.get("depth", 1)
-        )
+        duration_new_op = _get_depth(curr_op)
     assert duration_new_op is not None
 
     ref_pt_new = t_constr.ref_pt_new or "start"
-- 
2.43.0


From 67dff213b36eaabaac74fb2a08ff158be74770c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:56 +0000
Subject: [PATCH 098/101] fix: circuit diagrams draw operations in the right
 column and line

- Simultaneous operations were drawn at their ideal time instead of in the
  column of that time, possibly outside of the diagram, and the brackets of
  loops and conditionals did not start at their first operation.
- Ports were drawn on the wrong line when another port belongs to no known
  device element.
- Loops directly inside a control flow were not drawn; operations without a
  port in a control flow, or with a clock that is added during compilation,
  raised a KeyError.
---
 .../_visualization/circuit_diagram.py         | 101 +++++++++---------
 1 file changed, 49 insertions(+), 52 deletions(-)

diff --git a/quantify_scheduler/schedules/_visualization/circuit_diagram.py b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
index 40a56ac..0e11601 100644
--- a/quantify_scheduler/schedules/_visualization/circuit_diagram.py
+++ b/quantify_scheduler/schedules/_visualization/circuit_diagram.py
@@ -16,6 +16,7 @@ from quantify_scheduler.compilation import _determine_absolute_timing
 from quantify_scheduler.helpers.importers import import_python_object_from_string
 from quantify_scheduler.operations.control_flow_library import (
     ConditionalOperation,
+    ControlFlowOperation,
     LoopOperation,
 )
 from quantify_scheduler.operations.operation import Operation
@@ -315,6 +316,10 @@ def reset(ax: Axes, time: float, device_element_idxs: list[int], text: str, **kw
         )
 
 
+# Number of digits to which times are rounded before they are compared.
+_TIME_PRECISION = 12
+
+
 class _ControlFlowEnd(Enum):
     """Identifier for end of a control-flow scope."""
 
@@ -334,17 +339,11 @@ def _walk_schedule(
             )
     elif isinstance(sched_or_op, LoopOperation):
         yield time_offset, sched_or_op
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule(sched_or_op.body, time_offset)
-        else:
-            yield time_offset, sched_or_op.body
+        yield from _walk_schedule(sched_or_op.body, time_offset)
         yield time_offset + int(sched_or_op.duration), _ControlFlowEnd.LOOP_END
     elif isinstance(sched_or_op, ConditionalOperation):
         yield time_offset, sched_or_op
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule(sched_or_op.body, time_offset)
-        else:
-            yield time_offset, sched_or_op.body
+        yield from _walk_schedule(sched_or_op.body, time_offset)
         yield time_offset + int(sched_or_op.duration), _ControlFlowEnd.CONDI_END
     elif isinstance(sched_or_op, Operation):
         yield time_offset, sched_or_op
@@ -359,10 +358,7 @@ def _walk_schedule_only_operations(
         for operation in sched_or_op.operations.values():
             yield from _walk_schedule_only_operations(operation)
     elif isinstance(sched_or_op, (LoopOperation, ConditionalOperation)):
-        if isinstance(sched_or_op.body, ScheduleBase):
-            yield from _walk_schedule_only_operations(sched_or_op.body)
-        else:
-            yield sched_or_op.body
+        yield from _walk_schedule_only_operations(sched_or_op.body)
     elif isinstance(sched_or_op, Operation):
         yield sched_or_op
     else:
@@ -394,9 +390,11 @@ def _draw_operation(
         )
 
         for pulse_info in operation["pulse_info"]:
-            clock_id: str = pulse_info["clock"]
-            clock_resource = schedule_resources[clock_id]
-            if clock_resource["freq"] == 0:
+            if pulse_info["port"] is None:
+                continue
+            # Clocks that are not resources of the schedule are added during compilation.
+            clock_resource = schedule_resources.get(pulse_info["clock"])
+            if clock_resource is not None and clock_resource["freq"] == 0:
                 pulse_baseband(ax, time=time, device_element_idxs=idxs, text=operation.name)
             else:
                 pulse_modulated(ax, time=time, device_element_idxs=idxs, text=operation.name)
@@ -423,13 +421,11 @@ def _get_indices(
         index_set.update(
             port_map[info["port"]]
             for info in chain(operation["pulse_info"], operation["acquisition_info"])
+            # Can be None e.g. in case of NCO operations.
+            if info["port"] is not None
         )
 
     indices: set[int] = set()
-    if isinstance(sched_or_op, Operation):
-        add_index_from_operation(sched_or_op, indices)
-        return indices
-
     for operation in _walk_schedule_only_operations(sched_or_op):
         add_index_from_operation(operation, indices)
 
@@ -590,18 +586,15 @@ def _get_device_element_and_port_map_from_schedule(
     device_element_map = {
         device_element: idx for idx, device_element in enumerate(sorted(device_elements))
     }
+    if any(port.split(":")[0] not in device_elements for port in ports):
+        for device_element, idx in device_element_map.items():
+            device_element_map[device_element] = idx + 1
+        device_element_map["other"] = 0
     port_map: dict[str, int] = {}
-    added_other = False
     for port in ports:
         maybe_device_element = port.split(":")[0]
         if maybe_device_element in device_elements:
             port_map[port] = device_element_map[maybe_device_element]
-        elif not added_other:
-            for device_element, idx in device_element_map.items():
-                device_element_map[device_element] = idx + 1
-            device_element_map["other"] = 0
-            port_map[port] = 0
-            added_other = True
         else:
             port_map[port] = device_element_map["other"]
     return device_element_map, port_map
@@ -626,6 +619,16 @@ def _get_feedback_label_and_device_element_idx(
     return None
 
 
+def _get_column_by_time(schedule: Schedule) -> dict[float, int]:
+    """Map the (rounded) start times of the operations to consecutive columns of the diagram."""
+    times = {
+        round(abs_time, _TIME_PRECISION)
+        for abs_time, operation in _walk_schedule(schedule)
+        if isinstance(operation, Operation) and not isinstance(operation, ControlFlowOperation)
+    }
+    return {abs_time: column for column, abs_time in enumerate(sorted(times))}
+
+
 def circuit_diagram_matplotlib(
     schedule: Schedule,
     figsize: tuple[int, int] | None = None,
@@ -650,59 +653,53 @@ def circuit_diagram_matplotlib(
     ax.set_yticks(list(device_element_map.values()))
     ax.set_yticklabels(device_element_map.keys())
 
-    current_diagram_time = 0
-    last_operation_time = 0
+    column_by_time = _get_column_by_time(schedule)
 
-    # Stack of (loop start time, loop operation) tuples
-    loop_scopes: list[tuple[int, LoopOperation]] = []
-    # Stack of (conditional start time, conditional operation) tuples
-    conditional_scopes: list[tuple[int, ConditionalOperation]] = []
+    # Stack of [first column, last column, loop operation] lists
+    loop_scopes: list[list] = []
+    # Stack of [first column, last column, conditional operation] lists
+    conditional_scopes: list[list] = []
     # Map from feedback_trigger_label to (thresholded acq time, device_element) tuple
     feedback_acq_map: dict[str, tuple[int, int]] = {}
     for abs_time, operation in _walk_schedule(schedule):
-        if isinstance(operation, LoopOperation):
-            loop_scopes.append((current_diagram_time + 1, operation))
-        elif isinstance(operation, ConditionalOperation):
-            conditional_scopes.append((current_diagram_time + 1, operation))
+        if isinstance(operation, (LoopOperation, ConditionalOperation)):
+            # The first operation of the body starts when the control flow operation does.
+            column = column_by_time[round(abs_time, _TIME_PRECISION)]
+            scopes = loop_scopes if isinstance(operation, LoopOperation) else conditional_scopes
+            scopes.append([column, column, operation])
         elif isinstance(operation, Operation):
-            if abs_time > last_operation_time:
-                current_diagram_time += 1
-                last_operation_time = abs_time
-                # draw_time is a quick fix for displaying simultaneity consistently if a
-                # single operation is simultaneous with a sub-schedule with multiple
-                # operations.
-                draw_time = current_diagram_time
-            else:
-                draw_time = abs_time
+            column = column_by_time[round(abs_time, _TIME_PRECISION)]
+            for scope in chain(loop_scopes, conditional_scopes):
+                scope[1] = max(scope[1], column)
             if (
                 feedback_label_and_device_element_idx := _get_feedback_label_and_device_element_idx(
                     operation, port_map, device_element_map
                 )
             ) is not None:
                 feedback_label, device_element_idx = feedback_label_and_device_element_idx
-                feedback_acq_map[feedback_label] = current_diagram_time, device_element_idx
+                feedback_acq_map[feedback_label] = column, device_element_idx
             _draw_operation(
                 operation=operation,
                 device_element_map=device_element_map,
                 port_map=port_map,
                 ax=ax,
-                time=draw_time,
+                time=column,
                 schedule_resources=schedule.resources,
             )
         elif isinstance(operation, ScheduleBase):
             pass
         elif operation == _ControlFlowEnd.LOOP_END:
-            start_time, loop_op = loop_scopes.pop()
+            start_time, end_time, loop_op = loop_scopes.pop()
             _draw_loop(
                 ax=ax,
                 device_element_map=device_element_map,
                 port_map=port_map,
                 operation=loop_op,
                 start_time=start_time,
-                end_time=current_diagram_time,
+                end_time=end_time,
             )
         elif operation == _ControlFlowEnd.CONDI_END:
-            body_start, conditional_op = conditional_scopes.pop()
+            body_start, body_end, conditional_op = conditional_scopes.pop()
             feedback_trigger_label = conditional_op["control_flow_info"]["feedback_trigger_label"]
             try:
                 measure_time, measure_device_element_idx = feedback_acq_map[feedback_trigger_label]
@@ -717,11 +714,11 @@ def circuit_diagram_matplotlib(
                 measure_device_element_idx=measure_device_element_idx,
                 body=conditional_op.body,
                 body_start=body_start,
-                body_end=current_diagram_time,
+                body_end=body_end,
                 device_element_map=device_element_map,
                 port_map=port_map,
             )
 
-    ax.set_xlim(-1, current_diagram_time + 1)
+    ax.set_xlim(-1, len(column_by_time))
 
     return fig, ax
-- 
2.43.0


From a3d8a30770054a64c3249f6f285092cf47535df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:08 +0000
Subject: [PATCH 099/101] fix: automatic RF switching sees pulses in loops of
 loops and loops of single pulses

---
 quantify_scheduler/backends/qblox/auto_rf_switch.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index ff47c98..4680c5a 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -207,6 +207,10 @@ def _collect_all_mw_events_recursive(
         # Global absolute start time of this schedulable
         schedulable_abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
 
+        # The body of a control flow operation can be any operation
+        while isinstance(operation, ControlFlowOperation):
+            operation = operation.body
+
         if isinstance(operation, ScheduleBase):
             # Recurse into nested schedule; its internal abs_times are relative to it
             sub_pulses, sub_events = _collect_all_mw_events_recursive(
@@ -214,13 +218,6 @@ def _collect_all_mw_events_recursive(
             )
             mw_pulses.extend(sub_pulses)
             vo_events.extend(sub_events)
-        elif isinstance(operation, ControlFlowOperation):
-            if isinstance(operation.body, ScheduleBase):
-                sub_pulses, sub_events = _collect_all_mw_events_recursive(
-                    operation.body, schedulable_abs_time
-                )
-                mw_pulses.extend(sub_pulses)
-                vo_events.extend(sub_events)
         else:
             for pulse_info in operation.data.get("pulse_info", []):
                 port = pulse_info.get("port", "")
@@ -484,7 +481,7 @@ def _collect_control_flow_blocks(schedule: Schedule, time_offset: float) -> list
     for schedulable in schedule.schedulables.values():
         operation = schedule.operations.get(schedulable["operation_id"])
         abs_time = time_offset + schedulable.data.get("abs_time", 0.0)
-        if isinstance(operation, ControlFlowOperation):
+        while isinstance(operation, ControlFlowOperation):
             blocks.append(
                 ControlFlowBlock(
                     abs_time=abs_time,
-- 
2.43.0


From 727c1f1c10ed012f43e7c5f8da490a3cc583928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:06 +0000
Subject: [PATCH 100/101] fix: automatic RF switch stays on for the ramp buffer
 after the last iteration of a loop

---
 quantify_scheduler/backends/qblox/auto_rf_switch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantify_scheduler/backends/qblox/auto_rf_switch.py b/quantify_scheduler/backends/qblox/auto_rf_switch.py
index 4680c5a..edf34a0 100644
--- a/quantify_scheduler/backends/qblox/auto_rf_switch.py
+++ b/quantify_scheduler/backends/qblox/auto_rf_switch.py
@@ -532,6 +532,8 @@ def _merge_around_control_flow(
         start, end = max(0.0, window[0] - ramp_buffer), window[1] + ramp_buffer
         is_outside = end <= block.abs_time + atol or start >= block.end_time - atol
         is_around = start <= block.abs_time - margin and end >= block.end_time + margin
+        # Pulses in later executions of the body end after those in the first one.
+        is_around &= not block.abs_time + atol < window[1] < block.end_time - atol
         is_inside = start >= block.abs_time + margin and end <= block.body_end_time - margin
         return not (is_outside or is_around or is_inside)
 
-- 
2.43.0


From 54ee1376fa1692320e66bc82a6c1f00f81c51755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:03 +0000
Subject: [PATCH 101/101] fix: gates of earlier releases keep their qubits when
 they are read

---
 quantify_scheduler/operations/operation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantify_scheduler/operations/operation.py b/quantify_scheduler/operations/operation.py
index 75c9ec8..260bd49 100644
--- a/quantify_scheduler/operations/operation.py
+++ b/quantify_scheduler/operations/operation.py
@@ -118,8 +118,8 @@ class Operation(JSONSchemaValMixin, UserDict):
             (qubits := gate_info.get("qubits")) is not None
         ):
             new_gate_info = deepcopy(gate_info)
-            if gate_info.get("device_elements") is not None:
-                gate_info["device_elements"] = qubits
+            if new_gate_info.get("device_elements") is None:
+                new_gate_info["device_elements"] = qubits
             new_gate_info.pop("qubits")
             data["gate_info"] = new_gate_info
         self.data = data
-- 
2.43.0

