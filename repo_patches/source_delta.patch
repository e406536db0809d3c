From 9c136fc11567f350cbf99f1c9627ccbbb534031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:23 +0000
Subject: [PATCH 01/42] fix: record each transient solution at the timepoint it
 was solved for

The step was doubled between solving and advancing time, and the last step
was labelled TSTOP whatever time it was solved at. A step that failed to
converge also moved time forward, so a failure in the last step looked like
a completed run.
---
 src/engine.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..5ccb272 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -240,6 +240,7 @@ impl Engine {
             let mut unknowns_solve : Vec<f64> = vec![0.0; c_mna];
             let mut unknowns_solve_prev : Vec<f64> = vec![0.0; c_mna];
             let mut geared = false;
+            let mut t_solve = t_now;
 
             let mut _mse :f64 = 0.0; // not used if trace! is empty
 
@@ -253,8 +254,16 @@ impl Engine {
                 // * re-order during guassian elimination
                 let mut m = self.base_matrix.clone();
 
+                // candidate timepoint, never going past the end of the simulation
+                // (and not leaving a sliver of a step behind either)
+                t_solve = t_now + t_delta;
+                if t_solve + 1e-6 * t_delta > cfg.TSTOP {
+                    t_solve = cfg.TSTOP;
+                    t_delta = t_solve - t_now;
+                }
+
                 // stamp independent sources
-                self.independent_source_stamp(&mut m, t_now + t_delta);
+                self.independent_source_stamp(&mut m, t_solve);
 
                 // Stamp voltage-dependent sources
                 self.v_dependent_source_stamp(&mut m);
@@ -312,6 +321,11 @@ impl Engine {
             }
 
             if converged {
+                // the solution belongs to the timepoint it was solved at, so
+                // move there before picking the next t_delta
+                t_now = t_solve;
+                is_final_timestep = t_now >= cfg.TSTOP;
+
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
 
@@ -330,12 +344,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
 
             // break out of this loop if an error was detected
             if error {
-- 
2.43.0


From dec006873d84e1e91dfaa78ee921de8fdace964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:53 +0000
Subject: [PATCH 02/42] fix: start capacitors from the DC operating point in
 transient analysis

The operating point was computed and written out as the first row, but every
capacitor was then integrated from 0V.
---
 src/engine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 5ccb272..64bc875 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,13 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+
+        // capacitors start from the DC operating point, or discharged if
+        // there isn't one (e.g. a node with only capacitors on it)
+        if unknowns.iter().any(|x| !x.is_finite()) {
+            unknowns = vec![0.0; c_mna];
+        }
+        let mut unknowns_prev = unknowns.clone();
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From 8e4d62d5eb9772bb9d60e9469813372cf7689e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:46 +0000
Subject: [PATCH 03/42] fix: don't accept a Newton solution while a diode is
 being limited

With the junction voltage limited, successive solutions can agree to within
RELTOL while being nowhere near the diode curve: 3A into 1 ohm in parallel
with a diode reported 3V.
---
 src/element/diode.rs |  8 ++++++++
 src/engine.rs        | 18 +++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 9b701d0..60aa490 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -23,6 +23,7 @@ pub struct Diode {
     v_d_prev: Cell<f64>,
     i_d_prev: Cell<f64>,
     g_eq_prev: Cell<f64>,
+    limited: Cell<bool>,
 }
 
 impl Diode {
@@ -39,6 +40,7 @@ impl Diode {
             v_d_prev: Cell::new(0.0),
             i_d_prev: Cell::new(0.0),
             g_eq_prev: Cell::new(GMIN),
+            limited: Cell::new(false),
         };
         d.update_v_thermal();
         d.update_v_crit();
@@ -105,12 +107,18 @@ impl Diode {
             println!("*ERROR* - banjaxed");
         }
 
+        self.limited.set(v_d_i != v_hat);
         self.v_d_prev.set(v_d_i);
         self.i_d_prev.set(i_d);
         self.g_eq_prev.set(g_eq);
         (g_eq, i_eq)
     }
 
+    /// Was the excursion limited in the last call to `linearize()`?
+    pub fn is_limited(&self) -> bool {
+        self.limited.get()
+    }
+
     /// thermal voltage. Should be ~26mV at room temperature
     fn update_v_thermal(&mut self) {
         self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;
diff --git a/src/engine.rs b/src/engine.rs
index 64bc875..f1e7f6b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -278,7 +278,7 @@ impl Engine {
                 self.storage_stamp(&mut m, &unknowns_prev, t_delta);
 
                 // stamp companion models of nonlinear devices
-                self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
+                let limited = self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
 
                 // Solve
                 unknowns = self.solve(m);
@@ -294,7 +294,7 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg {
+                        if cnvg && !limited {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -403,7 +403,7 @@ impl Engine {
             self.v_dependent_source_stamp(&mut m);
 
             // stamp companion models of nonlinear devices
-            self.nonlinear_stamp(&mut m, &unknowns_prev, &unknowns_prev_prev);
+            let limited = self.nonlinear_stamp(&mut m, &unknowns_prev, &unknowns_prev_prev);
 
             // Guassian elimination & back solve of the now linearized
             // circuit matrix
@@ -417,7 +417,7 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd {
+                        if cnvd && !limited {
                             converged = true;
                             break;
                         }
@@ -813,7 +813,13 @@ impl Engine {
 
     // stamp a matrix with linearized companion models of all the nonlinear
     // devices listed in the SPICE netlist
-    fn nonlinear_stamp(&self, m: &mut [Vec<f64>], n: &[f64], n_prev: &[f64] ) {
+    //
+    // Returns true if any device was linearized somewhere else than the bias
+    // point in `n` because its voltage excursion had to be limited. The solution
+    // of the stamped matrix can't be trusted as converged in that case.
+    fn nonlinear_stamp(&self, m: &mut [Vec<f64>], n: &[f64], n_prev: &[f64] ) -> bool {
+
+        let mut limited = false;
 
         if !&self.nonlinear_elements.is_empty() {
             trace!("  [STAMP] nonlinear elements");
@@ -827,6 +833,7 @@ impl Engine {
                     let v_d = n[d.p] - n[d.n];
                     let v_d_prev = n_prev[d.p] - n_prev[d.n];
                     let (g_eq, i_eq) = d.linearize(v_d, v_d_prev);
+                    limited |= d.is_limited();
 
                     trace!(" [STAMP] {} {} {:?}", el, v_d, (g_eq, i_eq));
 
@@ -849,6 +856,7 @@ impl Engine {
         }
         //println!("*INFO* Non-linear stamped matrix");
         //self.pp_matrix(&m);
+        limited
     }
 
     fn v_dependent_source_stamp(&self, m: &mut [Vec<f64>]) {
-- 
2.43.0


From 52152ee1db4f72b62b7644f7f6096aeb4624c58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:52 +0000
Subject: [PATCH 04/42] fix: let an engine be used for more than one analysis

The device lists kept growing, so a second analysis stamped every diode,
capacitor and time-varying or dependent source again.
---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index f1e7f6b..6c10ff1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -494,6 +494,12 @@ impl Engine {
         // [ V I ]
         let mut m = vec![ vec![0.0; c_mna+1]; c_mna]; // +1 for currents
 
+        // Forget the elements of any circuit analysed earlier with this engine
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Fill up the voltage node and current vector
         // This needs to know about each of the kinds of circuit elements, so
         // the node equations can be built up appropriately.
-- 
2.43.0


From 20b822f4d0aa3747bf90edf278bcaffd4acbfa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:38 +0000
Subject: [PATCH 05/42] fix: size the matrix by node id, and keep unconnected
 nodes out of it

Nodes that only appear in a subcircuit port list were not counted, so node
rows overlapped the voltage source rows and the result was garbage or a panic.
Circuits with more than 256 nodes panicked.
---
 src/circuit.rs     | 129 +++------------------------------------------
 src/element/mod.rs |  21 ++++++++
 src/engine.rs      |  14 +++++
 3 files changed, 42 insertions(+), 122 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..ba67c8d 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -141,133 +141,18 @@ impl Circuit {
     }
 
     /// Count the nodes in the circuit
+    ///
+    /// This includes ground, and nodes that have nothing connected to them.
     pub fn count_nodes(&self) -> usize {
 
         // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        let mut c_nodes: usize = self.nid_next.max(1);
 
+        // circuits can be built without adding the nodes by name
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                }
+            for nid in el.nodes() {
+                c_nodes = c_nodes.max(nid + 1);
+            }
         }
         c_nodes
     }
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 71e3484..8eae98e 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -2,6 +2,8 @@
 
 use std::fmt;
 
+use crate::circuit::{NodeId};
+
 pub mod resistor;
 pub mod capacitor;
 pub mod diode;
@@ -31,6 +33,25 @@ pub enum Element {
     Vccs(vdepsrc::Vccs),
 }
 
+impl Element {
+
+    /// The nodes the element is connected to, including control inputs
+    pub fn nodes(&self) -> Vec<NodeId> {
+        match *self {
+            Element::R(ref el) => vec![el.a, el.b],
+            Element::I(ref el) => vec![el.p, el.n],
+            Element::V(ref el) => vec![el.p, el.n],
+            Element::D(ref el) => vec![el.p, el.n],
+            Element::Isin(ref el) => vec![el.p, el.n],
+            Element::Vsin(ref el) => vec![el.p, el.n],
+            Element::Vpwl(ref el) => vec![el.p, el.n],
+            Element::C(ref el) => vec![el.a, el.b],
+            Element::Vcvs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+            Element::Vccs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+        }
+    }
+
+}
 
 impl fmt::Display for Element {
     fn fmt (&self, f:&mut fmt::Formatter) -> fmt::Result {
diff --git a/src/engine.rs b/src/engine.rs
index 6c10ff1..d842f52 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -573,6 +573,20 @@ impl Engine {
                 
             }
         }
+
+        // Nodes with nothing on them would make the matrix singular
+        let mut is_connected = vec![false; self.c_nodes];
+        for el in &ckt.elements {
+            for nid in el.nodes() {
+                is_connected[nid] = true;
+            }
+        }
+        for i in 1..self.c_nodes {
+            if !is_connected[i] {
+                m[i][i] = 1.0;
+            }
+        }
+
         self.base_matrix = m.to_vec();
         self.pp_matrix(&self.base_matrix);
 
-- 
2.43.0


From 8b28a5de1ff2cf5025815bc1d29fc8e6fcab6500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:54 +0000
Subject: [PATCH 06/42] fix: give each waveform column the same name on every
 run

Nodes connected to subcircuit ports were labelled with whichever of their
aliases the hash map happened to return last.
---
 src/circuit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index ba67c8d..680d8be 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -294,9 +294,16 @@ impl Circuit {
 
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
+    ///
+    /// A node can have aliases for the subcircuit ports it is connected to. The
+    /// name in the lookup is the one highest up the hierarchy.
     pub fn build_node_id_lut(&mut self) {
+        let depth = |name: &str| (name.matches('.').count(), name.to_string());
         for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+            let lut_name = self.node_id_lut.entry(*id).or_insert_with(|| name.to_string());
+            if depth(name) < depth(lut_name) {
+                *lut_name = name.to_string();
+            }
         }
     }
 
-- 
2.43.0


From 865aee1b41cf7b7418e7de915df9a1fc64b15424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:31 +0000
Subject: [PATCH 07/42] fix: PWL sources at the first and last points of the
 pattern

A pattern starting at time 0 with a nonzero value evaluated to NaN at time 0,
and a pattern that doesn't repeat went back to its start for the timepoint
that hits the last point exactly.
---
 src/element/vpwl.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..6f9782a 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -29,7 +29,7 @@ impl VoltageSourcePwl {
 
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0) && ((t - self.t_delay) >= t_period) {
             return self.pat[idx_last].1;
         }
 
@@ -58,6 +58,11 @@ impl VoltageSourcePwl {
 
         //dbg!(t1,v1, t2,v2);
 
+        // on the first point of a pattern that starts at time 0
+        if t_cycle == t2 {
+            return v2;
+        }
+
         // ... and interpolate between them
         let mut gradient = (v2-v1) / (t2-t1);
         if gradient.is_nan() {
-- 
2.43.0


From 29508e8f36c49ad5a5601170648617269ab3f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:37 +0000
Subject: [PATCH 08/42] fix: ignore everything from a ';' to the end of the
 line

Only a ';' with whitespace on both sides was recognised. A comment glued to its
text silently removed sources from the circuit, and a line with only a comment
was a panic.
---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..b40a185 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let code = line.split(';').next().unwrap_or("");
+            let bits :Vec<&str> = code.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From e080cccd71563109f3db4e55073cf63ecd90f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:04 +0000
Subject: [PATCH 09/42] fix: accept SIN() and PWL() written without any spaces

The whole source spec was taken for a DC value and the reader panicked.
---
 src/spice.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index b40a185..f960ecc 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -209,31 +209,31 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Idc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN") {
+                    if bits[3].starts_with("SIN") {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else if bits.len() == 4 {
+                        trace!("*INFO* Idc");
+                        let value = extract_value(bits[3]);
+                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Vdc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN(") {
+                    if bits[3].starts_with("SIN") {
                         trace!("*INFO* Vsin");
                         let src = self.extract_v_sine(&bits);
                         self.ckts[self.c].add_v_sin(src);
-                    } else if bits[3].starts_with("PWL(") {
+                    } else if bits[3].starts_with("PWL") {
                         trace!("*INFO* Vpwl");
                         let src = self.extract_v_pwl(&bits);
                         self.ckts[self.c].add_v_pwl(src);
+                    } else if bits.len() == 4 {
+                        trace!("*INFO* Vdc");
+                        let value = extract_value(bits[3]);
+                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
@@ -438,6 +438,7 @@ impl Reader {
         line = line.replace("SIN", "");
         line = line.replace('(', "");
         line = line.replace(')', "");
+        line = line.replace(',', " ");
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
@@ -476,6 +477,7 @@ impl Reader {
         line = line.replace("SIN", "");
         line = line.replace('(', "");
         line = line.replace(')', "");
+        line = line.replace(',', " ");
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-- 
2.43.0


From 37e44f7a15a08ce079e2b298dda3ed272bcfd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:56 +0000
Subject: [PATCH 10/42] fix: keep the independent sources of subcircuits when
 expanding

---
 src/expander.rs | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..f0c93a7 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -275,6 +275,55 @@ fn expand_instances(
         }
 
     } // insts
+
+    // The independent sources aren't instances. The toplevel ones are in the
+    // clone already.
+    if ckt_id != 0 {
+        expand_sources(ckts, ckt, ckt_id, &hier);
+    }
+}
+
+/// Copy the independent sources of a subcircuit into the toplevel clone
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    host_ckt_id: usize,
+    hier: &[String],
+) {
+    for el in &ckts[host_ckt_id].elements {
+        match *el {
+            Element::I(ref src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_i(p, n, src.value);
+            },
+            Element::V(ref src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v(p, n, src.value);
+            },
+            Element::Isin(ref src) => {
+                let mut isin = src.clone();
+                isin.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                isin.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_i_sin(isin);
+            },
+            Element::Vsin(ref src) => {
+                let mut vsin = src.clone();
+                vsin.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                vsin.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v_sin(vsin);
+            },
+            Element::Vpwl(ref src) => {
+                let mut vpwl = src.clone();
+                vpwl.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                vpwl.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v_pwl(vpwl);
+            },
+            // everything else is a primitive instance
+            _ => {}
+        }
+    }
 }
 
 /// Expand a subcircuit instantiation
-- 
2.43.0


From 851985a4db0d5d1cc951005e7ae6523fb99ab9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:12 +0000
Subject: [PATCH 11/42] fix: elements sharing a name each keep their own value

---
 src/circuit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 680d8be..4eebf5c 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -309,9 +309,12 @@ impl Circuit {
 
     /// Find a parameter value
     ///
+    /// The latest definition wins, so that elements that happen to share a name
+    /// each get their own value.
+    ///
     /// `N` is small..
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
-- 
2.43.0


From 7048863570b3ea479944ac3cbbac2940044ea5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:31 +0000
Subject: [PATCH 12/42] fix: don't panic on a bracket expression that isn't
 closed

---
 src/bracket_expression.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..565cc94 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -52,6 +52,11 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
 
     let expr_str: Vec<_> = text.chars().collect();
 
+    // nothing after the '{'
+    if expr_str.len() < 2 {
+        return None;
+    }
+
     let mut i:usize = 0;
 
     trace!("looking for '{{'");
@@ -64,7 +69,7 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
 
     while expr_str[i].is_whitespace() {
         i += 1;
-        if i >expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
@@ -74,7 +79,7 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
     while expr_str[i].is_ascii_alphanumeric() {
         ident_chars.push(expr_str[i]);
         i += 1;
-        if i > expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
@@ -84,7 +89,7 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
     trace!("looking for '}}'");
     while expr_str[i].is_whitespace() {
         i += 1;
-        if i > expr_str.len() {
+        if i >= expr_str.len() {
             return None;
         }
     }
-- 
2.43.0


From 0dc08db1a66f0ebea968637da0c57718201e505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:37 +0000
Subject: [PATCH 13/42] fix: don't panic on a number with a sign or exponent
 but no digits

---
 src/bracket_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 565cc94..fceb72d 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -153,7 +153,7 @@ pub fn extract_value(text: &str) -> Option<f64> {
     let mut text_iter = text.chars();
 
     fn eval( txt :&str, mult: f64) -> Option<f64> {
-        Some( txt.parse::<f64>().unwrap() * mult )
+        txt.parse::<f64>().ok().map(|v| v * mult)
     }
 
     'things: loop {
-- 
2.43.0


From 3345b07815424f8c712086f1a13609dbcbbf4c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:12 +0000
Subject: [PATCH 14/42] fix: refuse to simulate a deck with an element line
 that can't be read

---
 src/spice.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index f960ecc..db58cb3 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -217,6 +217,9 @@ impl Reader {
                         trace!("*INFO* Idc");
                         let value = extract_value(bits[3]);
                         self.ckts[self.c].add_i(node1, node2, value.unwrap());
+                    } else {
+                        println!("*ERROR* can't extract current source: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -237,36 +240,42 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -401,6 +410,7 @@ impl Reader {
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
         if bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
+            self.there_are_errors = true;
             return;
         }
 
@@ -443,6 +453,7 @@ impl Reader {
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
             println!("*ERROR* not enough parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -482,6 +493,7 @@ impl Reader {
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
             println!("*ERROR* not enough parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -736,7 +748,8 @@ impl Reader {
                 let param = Parameter::override_from_expression(&name, &expr);
                 inst.params.push(param);
             } else {
-                println!("*WARN* or maybe an err, i dunno");
+                println!("*ERROR* bad value '{}' for '{}'", param_text, ident);
+                self.there_are_errors = true;
             }
         }
 
-- 
2.43.0


From bc586bbf0434cf24eca523ff1c164edc8b60af2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:42 +0000
Subject: [PATCH 15/42] fix: accept options written without spaces around the
 '='

---
 src/spice.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index db58cb3..1d6ced6 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -407,22 +407,27 @@ impl Reader {
             return;
         }
 
-        // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
-        if bits[2] != "=" {
-            println!("*ERROR* Expected '=' in option setting");
-            self.there_are_errors = true;
-            return;
-        }
+        // the spaces around the '=' are optional
+        // FIXME - might be lower case too
+        let setting = bits[1..].concat();
+        let (name, text) = match setting.split_once('=') {
+            Some(parts) => parts,
+            None => {
+                println!("*ERROR* Expected '=' in option setting");
+                self.there_are_errors = true;
+                return;
+            }
+        };
 
-        match bits[1] {
+        match name {
             "ABSTOL" => {
-                self.cfg.ABSTOL = extract_value(bits[3]).unwrap();
+                self.cfg.ABSTOL = extract_value(text).unwrap();
             },
             "RELTOL" => {
-                self.cfg.RELTOL = extract_value(bits[3]).unwrap();
+                self.cfg.RELTOL = extract_value(text).unwrap();
             },
             "RMAX" => {
-                self.cfg.RMAX = extract_value(bits[3]).unwrap();
+                self.cfg.RMAX = extract_value(text).unwrap();
             },
             _ => {
             }
-- 
2.43.0


From 73fc8e3083846546abb6cff3d192c92256ddd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:48 +0000
Subject: [PATCH 16/42] fix: refuse an instantiation with the wrong number of
 connections

---
 src/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index f0c93a7..d9e11b2 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -355,8 +355,9 @@ fn expand_subckt(
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
     if ckts[subckt_id].num_ports != inst.conns.len() {
-        print!("*ERROR* Instantiation and subcircuit definitions ");
-        println!("have different port sizes");
+        println!("*FATAL* Instantiation of {} and its definition have different port sizes",
+            inst.subckt);
+        panic!();
     }
 
 
-- 
2.43.0


From 2ace34a7e0ffa2968d2ebf45cf01e61b6ba576ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:53 +0000
Subject: [PATCH 17/42] fix: a solution with a bad value in it is always
 reported as divergent

---
 src/engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index d842f52..69fabf0 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1004,8 +1004,7 @@ impl Engine {
         for (i,x) in xv.iter().enumerate() {
             if !x.is_finite() {
                 println!("*ERROR* math gone bad - infinites in convergence check {}", i);
-                res = Err(ConvergenceError::Divergent);
-                continue;
+                return Err(ConvergenceError::Divergent);
             }
             let limit: f64 = if i < self.c_nodes {
                 x.abs() * cfg.RELTOL + cfg.VNTOL
-- 
2.43.0


From bb59badd99e59ce4fdee9633576e60f53b830769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:14 +0000
Subject: [PATCH 18/42] fix: simulate a deck given by its absolute path

---
 src/spice.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 1d6ced6..19383d0 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -165,15 +165,13 @@ impl Reader {
                 trace!("*INFO* Parsing control '{}'", bits[0]);
                 if bits[0] == "op" {
                     self.cfg.kind = Some(Kind::DcOperatingPoint);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                    let wavefile = wave_dir(&self.cfg.ckt_name)
                         .join("dc.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                 } else if bits[0] == "tran" {
                     self.cfg.kind = Some(Kind::Transient);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                    let wavefile = wave_dir(&self.cfg.ckt_name)
                         .join("tran.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
@@ -788,6 +786,15 @@ fn extract_identifier(text: &str) -> String {
 }
 
 
+/// The directory to put the waveforms of a circuit in
+///
+/// It's always in `waves`, even if the SPICE filepath is an absolute one.
+fn wave_dir(ckt_name: &str) -> PathBuf {
+    let filepath = Path::new(ckt_name);
+    Path::new("waves").join(filepath.strip_prefix("/").unwrap_or(filepath))
+}
+
+
 /// Look around for an include or library file.
 ///
 /// It should be relative to the file it is called from, unless
-- 
2.43.0


From cce5f3d90bf7b28e783c51a99fda217c11e22089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:33 +0000
Subject: [PATCH 19/42] fix: let a struggling transient timestep be reduced
 below TSTEP

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..a10144d 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-3,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From 2197b09ae9aad1b54c99868445e6172eb3aa3216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:39 +0000
Subject: [PATCH 20/42] fix: keep the first transient timestep under the RMAX
 limit too

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 69fabf0..55f3402 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -197,7 +197,7 @@ impl Engine {
         let mut unknowns_prev = unknowns.clone();
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
-- 
2.43.0


From bdd6ff8fc38f531dd0fc4ef3d9f9afdf89ecd7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 21/42] fix: write waveforms with full precision, whatever
 their scale

---
 src/wavewriter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..73ee6d0 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -83,10 +83,10 @@ impl WaveWriter<'_> {
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
         if let Some(ref mut file) = self.file {
-            let mut line = format!("{:0.9}", time);
+            let mut line = format!("{:e}", time);
 
             for var in vars {
-                let bit = format!("\t{:0.9}", var);
+                let bit = format!("\t{:e}", var);
                 line += &bit;
             }
             line += "\n";
-- 
2.43.0


From 363432757f4565e8bb70fb789b762bfb6c9cd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:01 +0000
Subject: [PATCH 22/42] fix: r8n's default expression is text like the others

---
 bin/r8n/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/r8n/waveforms.py b/bin/r8n/waveforms.py
index 9742ef2..5d16afb 100644
--- a/bin/r8n/waveforms.py
+++ b/bin/r8n/waveforms.py
@@ -29,7 +29,7 @@ def _parse_expr(expr):
 		return ('=', int(bits[0]))
 
 
-def load(filename, expr=1):
+def load(filename, expr="1"):
 	wv = Waveform()
 
 	op = _parse_expr(expr)
-- 
2.43.0


From 93b2041e9fca67d85d5a33e1fabe4aa3f2998019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:41 +0000
Subject: [PATCH 23/42] fix: refuse a parameter override that uses an unknown
 identifier

---
 src/expander.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index d9e11b2..00fe25f 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -163,9 +163,8 @@ fn expand_instances(
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From 8c665b5f516ba9fdc1ec8712e0affd46a3b7c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:47 +0000
Subject: [PATCH 24/42] fix: refuse a subcircuit that instantiates itself

---
 src/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index 00fe25f..3b0348c 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -350,6 +350,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // the hierarchy can only be deeper than the number of definitions if one of
+    // them is instantiated inside itself
+    if hier.len() >= ckts.len() {
+        panic!("*FATAL* Subcircuit {} instantiates itself", inst.subckt);
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
-- 
2.43.0


From 54513fe60e01a7773a4274102756bcd6f51299f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:15 +0000
Subject: [PATCH 25/42] fix: refuse a transient that could never advance in
 time

---
 src/spice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 19383d0..428767c 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -185,6 +185,10 @@ impl Reader {
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
+                    if self.cfg.TSTEP <= 0.0 || self.cfg.TSTOP <= 0.0 {
+                        println!("*ERROR* trans step and stop times must be positive");
+                        self.there_are_errors = true;
+                    }
                 } else if bits[0] == "option" {
                         self.extract_option(&bits);
                 } else if bits[0] == ".endc" {
@@ -426,6 +430,10 @@ impl Reader {
             },
             "RMAX" => {
                 self.cfg.RMAX = extract_value(text).unwrap();
+                if self.cfg.RMAX <= 0.0 {
+                    println!("*ERROR* RMAX must be positive");
+                    self.there_are_errors = true;
+                }
             },
             _ => {
             }
-- 
2.43.0


From 899d02f46c278c25bc50e58363daef12c65e1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:08 +0000
Subject: [PATCH 26/42] fix: report a PWL parameter that isn't a number

td={x} or r={x} was silently taken as 0.
---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 428767c..d180542 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -549,6 +549,8 @@ impl Reader {
                     let val = if let Some(Literal(v)) = param.expr {
                         v
                     } else {
+                        println!("*ERROR* PWL parameter '{}' must be a number", param.name);
+                        self.there_are_errors = true;
                         0.0
                     };
 
-- 
2.43.0


From 9646209626297779e80b8f6d8a95e05305a315b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 27/42] fix: report blocks that are never closed

A .subckt without .ends, or a .control without .endc, silently took the
rest of the deck as part of the block.
---
 src/spice.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index d180542..62330c3 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -371,6 +371,16 @@ impl Reader {
             //println!("{}", line);
         }
 
+        // everything after an unfinished block was taken as part of it
+        if in_subckt {
+            println!("*ERROR* .subckt without a .ends");
+            self.there_are_errors = true;
+        }
+        if in_control_block {
+            println!("*ERROR* .control without a .endc");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 21d90966b7d6bc4d527902bb978228a90dd02ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 28/42] fix: PWL source is 0 all the time before its delay

A whole number of periods before the end of the delay the remainder is
-0.0, which isn't less than 0, and with a single point at time 0 it is NaN.
---
 src/element/vpwl.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index 6f9782a..84ead75 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -33,12 +33,14 @@ impl VoltageSourcePwl {
             return self.pat[idx_last].1;
         }
 
-        // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
+        // nothing happens before the delay is over
+        if t < self.t_delay {
             return 0.0;
         }
 
+        // where in the cycle are we?
+        let t_cycle = ( t - self.t_delay ) % t_period;
+
         // find out which points we're between...
         let mut t1 = 0.0;
         let mut t2 = 0.0;
-- 
2.43.0


From 0e5dbb83074523afcb410953c52079949a240db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 29/42] fix: diode current that overflows is reported as not
 converged

A diode across a large ideal voltage made linearize() panic. Limit the
junction voltage to what can be evaluated instead: it's flagged as limited,
so the solution isn't accepted and the timestep control gets to report it.
---
 src/element/diode.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 60aa490..448dc30 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -11,6 +11,9 @@ macro_rules! trace {
     };
 }
 
+/// Largest multiple of the thermal voltage to take the exponential of
+const EXP_ARG_MAX: f64 = 600.0;
+
 #[derive(Clone)]
 pub struct Diode {
     pub ident: String,
@@ -56,7 +59,7 @@ impl Diode {
         let v_d_prev = self.v_d_prev.get();
         let v_delta = v_hat - v_d_prev;
 
-        let v_d_i :f64;
+        let mut v_d_i :f64;
         #[allow(clippy::if_same_then_else)] // FIXME??
         if v_hat < self.v_crit {
             v_d_i = v_hat;
@@ -75,6 +78,12 @@ impl Diode {
             trace!("v_d {}, v_d_prev {}", v_hat, v_d_prev);
             trace!(" arg {}, v_d_i {}", arg, v_d_i);
         }
+
+        // don't go where the current overflows, there's no solution up there
+        let v_max = EXP_ARG_MAX * self.v_thermal;
+        if v_d_i > v_max {
+            v_d_i = v_max;
+        }
         trace!("V_d from {} V to {} V (v_crit={})", v_hat, v_d_i, self.v_crit);
 
         // current through the diode, given the bias voltage
-- 
2.43.0


From 6211b6147c39158c4f042199450791b5ec4114a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 30/42] fix: a circuit with contradictory sources is reported
 as divergent, not solved

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 55f3402..7bff8ed 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -653,7 +653,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if n[i_last].is_nan() {
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 826361ed245838870d38e84b03e79dd03dafa586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 31/42] fix: ground or a repeated name as a port connected the
 ports after it to the wrong nodes

---
 src/spice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 62330c3..11ca36a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -315,8 +315,12 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            // ground is global, and the others need a name each
                             num_ports += 1;
+                            if self.extract_node(nn) != num_ports {
+                                println!("*ERROR* bad port '{}'", nn);
+                                self.there_are_errors = true;
+                            }
                         }
                         self.ckts[self.c].num_ports = num_ports;
 
-- 
2.43.0


From df9895811d6f3ba92c5d1213d869042e6398a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:28 +0000
Subject: [PATCH 32/42] fix: node names on instantiations weren't checked:
 x.gnd was ground, X1.n the inside of X1

---
 src/spice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 11ca36a..b63b1ce 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -655,7 +655,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From 7cc61670662d2eca46914088e4993d8b394cb7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 33/42] fix: a voltage source with both ends on one node put
 its voltage on that node

---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7bff8ed..d912ab1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -760,13 +760,13 @@ impl Engine {
         let n_not_grounded = (vsrc.n != 0);
 
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From 7074389e51a308180540756b515bb2d522c6db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 34/42] fix: a waveform that can't be written was lost without
 a word

---
 src/wavewriter.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 73ee6d0..33c9b72 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -75,26 +75,32 @@ impl WaveWriter<'_> {
         }
         units += "\n";
 
-        if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
-        }
+        self.write(&names);
+        self.write(&units);
     }
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
-        if let Some(ref mut file) = self.file {
-            let mut line = format!("{:e}", time);
+        let mut line = format!("{:e}", time);
 
-            for var in vars {
-                let bit = format!("\t{:e}", var);
-                line += &bit;
-            }
-            line += "\n";
-            let _ = file.write_all(line.as_bytes());
+        for var in vars {
+            let bit = format!("\t{:e}", var);
+            line += &bit;
         }
+        line += "\n";
+        self.write(&line);
 
     }
 
+    /// Write into the file, giving up on it if that fails
+    fn write(&mut self, text: &str) {
+        if let Some(ref mut file) = self.file {
+            if let Err(why) = file.write_all(text.as_bytes()) {
+                println!("*ERROR* Can't write waveforms: {}", why);
+                self.file = None;
+            }
+        }
+    }
+
 }
 
 
-- 
2.43.0


From 26b21c716288a902936128e9b069f2453cebcc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 35/42] fix: two instances with the same name shared their
 local nodes and parameters

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index b63b1ce..3e65527 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -282,6 +282,11 @@ impl Reader {
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
                     let inst = self.extract_instance(&bits);
+                    // the local nodes and parameters go by the instance name
+                    if self.ckts[self.c].instances.iter().any(|i| i.name == inst.name) {
+                        println!("*ERROR* there already is an instance '{}'", inst.name);
+                        self.there_are_errors = true;
+                    }
                     self.ckts[self.c].add_instance(inst);
                 } else if bits[0].starts_with('.') {
                     if bits[0] == ".control" {
-- 
2.43.0


From e67e1ab71a81f906edbcf6653ab8cd93e16f1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 36/42] fix: a timestep near 0 V counted as converged wherever
 the diodes were

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index d912ab1..2ea7fb4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -243,7 +243,7 @@ impl Engine {
 
             // solver iteration count
             let mut c_itl: usize = 0;
-            let mut unknowns_solve : Vec<f64> = vec![0.0; c_mna];
+            let mut unknowns_solve = unknowns.clone(); // where the diodes start from
             let mut unknowns_solve_prev : Vec<f64> = vec![0.0; c_mna];
             let mut geared = false;
             let mut t_solve = t_now;
-- 
2.43.0


From 330554db9c879927c534cb6a86058aae0c0f95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 37/42] fix: refuse an instance without the name of a
 subcircuit

---
 src/spice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 3e65527..da83c29 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -656,6 +656,10 @@ impl Reader {
                 break;
             }
         }
+        if subckt_id == 0 {
+            println!("*ERROR* no subcircuit name for instance '{}'", inst.name);
+            self.there_are_errors = true;
+        }
         inst.subckt = bits[subckt_id].to_string();
 
         // Store the connections as NodeIds
-- 
2.43.0


From f678ad011d613b1aa36f9aa49c98e1bba1006325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 38/42] fix: r8n plotted the first column of an expression with
 two minus signs

---
 bin/r8n/waveforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bin/r8n/waveforms.py b/bin/r8n/waveforms.py
index 5d16afb..105bb89 100644
--- a/bin/r8n/waveforms.py
+++ b/bin/r8n/waveforms.py
@@ -25,8 +25,10 @@ def _parse_expr(expr):
 	bits = [b.strip() for b in bits_untrimmed]
 	if len(bits) == 2:
 		return ('-', int(bits[0]), int(bits[1]))
-	else:
+	elif len(bits) == 1:
 		return ('=', int(bits[0]))
+	else:
+		raise ValueError("unsupported expression: '{}'".format(expr))
 
 
 def load(filename, expr="1"):
-- 
2.43.0


From b9a03d094720fa9b618d9a571e83a443fb0af4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 39/42] fix: a deck file with the name of a subcircuit hid the
 subcircuit

---
 src/expander.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 3b0348c..f8f7911 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -535,9 +535,10 @@ fn expand_primitive(
 /// Find the index of the subcircuit called `name`.
 ///
 /// `N` is small, so just search the circuit list one by one until
-/// a name match is found.
+/// a name match is found. The toplevel is called after its file, which
+/// isn't the name of a subcircuit.
 fn find_subckt_index(ckts: &[Circuit], name: &str) -> Option<usize> {
-    for (i, ckt) in ckts.iter().enumerate() {
+    for (i, ckt) in ckts.iter().enumerate().skip(1) {
         if ckt.name == name {
             return Some(i);
         }
-- 
2.43.0


From d84f755e95a54b69118e88063f801fd2ec5cd772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 40/42] fix: a tran without a start time kept that of an
 earlier tran

---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index da83c29..46f2ae6 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -182,6 +182,7 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
+                    self.cfg.TSTART = 0.0;
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
-- 
2.43.0


From 62c317c4c0773f144dc2a22e879d8d3c9c4d5046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 41/42] fix: refuse instance names with a '.'

The nodes inside an instance are named instance.node, so X1.X2 at the top
shared the nodes of an instance X2 inside X1.
---
 src/spice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 46f2ae6..72fbbb6 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -638,6 +638,12 @@ impl Reader {
 
         let mut inst = Instance::new(ident, "(not-found)");
 
+        // the names inside go by the instance name, with a '.' between
+        if ident.contains('.') {
+            println!("*ERROR* bad instance name: '{}'", ident);
+            self.there_are_errors = true;
+        }
+
         // Paramters, if there are any
         // Search back from the end of the `bits` list until we find the first
         // text section without an "=" sign. This is the subcircuit name.
-- 
2.43.0


From 35df14085d5b3beff15cd95d7785ac278b04a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:18 +0000
Subject: [PATCH 42/42] fix: refuse parameter names with a '.'

Parameters are kept by their full names, so an override X2.r at the
instantiation of X1 set the parameter r of the instance X2 inside it.
---
 src/spice.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 72fbbb6..f2e72a7 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -725,6 +725,10 @@ impl Reader {
         }
 
         let name = extract_identifier(bits[0]);
+        if name.contains('.') {
+            println!("*ERROR* bad parameter name: '{}'", name);
+            self.there_are_errors = true;
+        }
         if let Some(expr) = extract_expression(bits[1]) {
             Some(Parameter::default_from_expression(&name, &expr))
         } else {
@@ -747,6 +751,10 @@ impl Reader {
         }
 
         let name = extract_identifier(bits[0]);
+        if name.contains('.') {
+            println!("*ERROR* bad parameter name: '{}'", name);
+            self.there_are_errors = true;
+        }
         if let Some(expr) = extract_expression(bits[1]) {
             Some(Parameter::override_from_expression(&name, &expr))
         } else {
-- 
2.43.0

