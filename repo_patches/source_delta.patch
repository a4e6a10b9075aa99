From 9f5e1bec4b527b7556620cb34af17d7d34b1837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 01/39] fix: remove_in_edges removes the incoming edges instead
 of reversed ones

---
 src/sims_pars/bayesnet/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index a671f0a..c3a3480 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -110,7 +110,7 @@ class DAG(nx.DiGraph):
         :param node: targeted node
         """
         for par in self.parents(node):
-            self.remove_edge(node, par)
+            self.remove_edge(par, node)
 
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
-- 
2.43.0


From 15c7c03ba36a6333340ad430511779377921ba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 02/39] fix: remove_upstream/remove_downstream were swapped and
 lost track of removed paths

---
 src/sims_pars/bayesnet/dag.py | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index c3a3480..7be71ca 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -115,25 +115,12 @@ class DAG(nx.DiGraph):
     def remove_upstream(self, nodes):
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.ancestors(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.upstream(nodes).difference(nodes))
 
     def remove_downstream(self, nodes):
         if not isinstance(nodes, list):
             nodes = [nodes]
-        nodes = set(nodes)
-        od = self.order()
-        od.reverse()
-        for s in od:
-            if s in nodes:
-                continue
-            if nodes.intersection(self.descendants(s)):
-                self.remove_node(s)
+        self.remove_nodes_from(self.downstream(nodes).difference(nodes))
 
     def __str__(self):
         return 'DAG({})'.format(', '.join(self.order()))
-- 
2.43.0


From b260e933c1fef01b4a36f7ad9e9fc19f4a9b7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 03/39] fix: minimal_requirements keeps parents which also
 precede a given node

---
 src/sims_pars/bayesnet/dag.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 7be71ca..9c0af00 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -146,13 +146,12 @@ def minimal_dag(g, nodes):
 
 
 def minimal_requirements(g, target, cond):
-    anc = set(g.ancestors(target))
-
+    mi = g.copy()
     for s in cond:
-        if s in anc:
-            anc.difference_update(g.ancestors(s))
+        if s in mi and s != target:
+            mi.remove_in_edges(s)
 
-    return g.sort(anc)
+    return g.sort(mi.ancestors(target))
 
 
 def get_sufficient_nodes(g, included, given=None):
-- 
2.43.0


From ad522d6a883faa26f100a8de757d02e6b91bb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 04/39] fix: unions over empty collections of nodes or
 arguments

---
 src/sims_pars/bayesnet/chromosome.py | 2 +-
 src/sims_pars/bayesnet/dag.py        | 8 ++++----
 src/sims_pars/util.py                | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims_pars/bayesnet/chromosome.py b/src/sims_pars/bayesnet/chromosome.py
index fa9450a..01dc9e0 100644
--- a/src/sims_pars/bayesnet/chromosome.py
+++ b/src/sims_pars/bayesnet/chromosome.py
@@ -44,7 +44,7 @@ class Chromosome:
         if bn:
             g = bn.DAG
             imp = {k: v for k, v in new_locus.items() if k in self}
-            shocked = set.union(*[set(nx.descendants(g, k)) for k in imp.keys()])
+            shocked = set().union(*[set(nx.descendants(g, k)) for k in imp.keys()])
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
             shocked.difference_update(imp.keys())
diff --git a/src/sims_pars/bayesnet/dag.py b/src/sims_pars/bayesnet/dag.py
index 9c0af00..196af69 100644
--- a/src/sims_pars/bayesnet/dag.py
+++ b/src/sims_pars/bayesnet/dag.py
@@ -51,7 +51,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.ancestors(d) for d in nodes])
+        return set().union(*[self.ancestors(d) for d in nodes])
 
     def downstream(self, nodes):
         """
@@ -59,7 +59,7 @@ class DAG(nx.DiGraph):
         :param nodes: targeted nodes
         :return: a set of offspring nodes
         """
-        return set.union(*[self.descendants(d) for d in nodes])
+        return set().union(*[self.descendants(d) for d in nodes])
 
     def roots(self):
         """
@@ -170,7 +170,7 @@ def get_sufficient_nodes(g, included, given=None):
         for pa in pas:
             mi.remove_edge(pa, nod)
     # find the nodes supporting the included nodes
-    return set.union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
+    return set().union(*[nx.ancestors(mi, nod) for nod in included]).union(included)
 
 
 def get_minimal_nodes(g, included, given=None):
@@ -193,7 +193,7 @@ def get_offsprings(g, nodes):
     :param nodes: targeted nodes
     :return: a set of offspring nodes
     """
-    return set.union(*[g.descendants(d) for d in nodes])
+    return set().union(*[g.descendants(d) for d in nodes])
 
 
 if __name__ == '__main__':
diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 4d08de6..a83e4db 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -189,7 +189,7 @@ class ParsedFunction:
 
     @property
     def Parents(self):
-        return set.union(*[arg['value'].Var for arg in self.Arguments])
+        return set().union(*[arg['value'].Var for arg in self.Arguments])
 
     def to_json(self, loc=None):
         return {
-- 
2.43.0


From f3035432ec39321c5c2b749d5b13e81bf6f89aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:44 +0000
Subject: [PATCH 05/39] fix: rejecting a cyclic definition leaves the network
 as it was

---
 src/sims_pars/bayesnet/bn.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 124f6dd..9c94279 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -72,23 +72,19 @@ class BayesianNetwork:
         #     if not isinstance(self.DAG.nodes[name]['loci'], ExoValueLoci):
         #         raise KeyError('Duplicated variable name')
 
+        # Check acyclic or not
+        following = self.DAG.descendants(name) if name in self.DAG else set()
+        if any(pa == name or pa in following for pa in loci.Parents):
+            raise AttributeError('The node causes cyclic paths')
+
         self.DAG.add_node(name, loci=loci, **kwargs)
         self.DAG.remove_in_edges(name)
 
-        new_pa = list()
         for pa in loci.Parents:
             if pa not in self.DAG:
                 self.append_loci(ExoValueLoci(pa))
-                new_pa.append(pa)
             self.DAG.add_edge(pa, name)
 
-        # Check acyclic or not
-        if not self.DAG.check_acyclic():
-            self.DAG.remove_node(name)
-            for pa in new_pa:
-                self.DAG.remove_node(pa)
-            raise AttributeError('The node causes cyclic paths')
-
     def append_from_js(self, js):
         loci = loci_from_json(js)
         if 'Des' in js:
-- 
2.43.0


From 00e7de4e7b5810b55767c1aaa69c3d2399946e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 06/39] fix: rebuilding a network from json failed

---
 src/sims_pars/bayesnet/bn.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 9c94279..805b60a 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -316,11 +316,5 @@ def bayes_net_from_json(js):
 
     for node in js['Nodes']:
         bn.append_from_js(node)
-    nx.freeze(bn)
-    bn.json = js
-    bn.__order = js['Order']
-    bn.__roots = js['Roots']
-    bn.__rv_roots = js['RVRoots']
-    bn.__leaves = js['Leaves']
-    bn.__exo = js['Exo']
+    bn.complete()
     return bn
-- 
2.43.0


From ea25dbd464de5421f339cdd1ec2a6efbb8419a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 07/39] fix: extend lost the definitions of the variables it
 added

---
 src/sims_pars/bayesnet/bn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 805b60a..11562c7 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -254,7 +254,7 @@ class BayesianNetwork:
 
         for node in self.Order:
             if override or node not in ext:
-                new_bn.append_from_definition(node)
+                new_bn.append_from_js(self[node].to_json())
 
         new_bn.complete()
         return new_bn
-- 
2.43.0


From 05b4e84cbb616d46ec40147e15cf8bd27d5609ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 08/39] fix: merge turned redefined variables with kept
 children into exogenous ones

---
 src/sims_pars/bayesnet/bn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/bayesnet/bn.py b/src/sims_pars/bayesnet/bn.py
index 11562c7..0913e26 100644
--- a/src/sims_pars/bayesnet/bn.py
+++ b/src/sims_pars/bayesnet/bn.py
@@ -232,11 +232,11 @@ class BayesianNetwork:
 
         bn = self.copy(name)
         bn.defrost()
-        for node in sub_bn.Order:
-            if sub_bn.is_exogenous(node):
-                continue
+        nodes = [node for node in sub_bn.Order if not sub_bn.is_exogenous(node)]
+        for node in nodes:
             if node in bn:
-                bn.DAG.remove_node(node)
+                bn.DAG.remove_in_edges(node)
+        for node in nodes:
             bn.append_from_js(sub_bn[node].to_json())
 
         bn.__check_edges()
-- 
2.43.0


From 61b5d8f3662c82bc9a298ad8d4a9bce6991b8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 09/39] fix: log density of a constant outside its value is
 minus infinity

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index a87605c..7b09455 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -163,7 +163,7 @@ class Const(AbsDistribution):
         return self.K
 
     def logpdf(self, v):
-        return 0 if v == self.K else float('inf')
+        return 0 if v == self.K else -float('inf')
 
     def mean(self):
         return self.K
-- 
2.43.0


From 4eb18fa3b569f2196b7c337b5feccb4487d6b2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 10/39] fix: log density of a categorical variable uses
 normalised weights

---
 src/sims_pars/prob.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index 7b09455..d62a4a8 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -201,10 +201,11 @@ class CategoricalRV(AbsDistribution):
         return 'Category'
 
     def logpdf(self, v):
+        total = sum(self.kv.values())
         try:
-            return np.array([x*np.log(self.kv[k]) for k, x in v.items()]).sum()
+            return np.array([x*np.log(self.kv[k]/total) for k, x in v.items()]).sum()
         except AttributeError:
-            return np.log(self.kv[v])
+            return np.log(self.kv[v]/total)
 
     def sample(self, n=1, **kwargs):
         sam = rd.choice(self.cat, n, p=self.p)
-- 
2.43.0


From 97a24a8e17a964dd1914f2de0e71eb8e2628e480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 11/39] fix: parameter sets see the inherited values their
 fixed variables depend on

---
 src/sims_pars/simulation/simugroup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index d843ba8..b6aafb1 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -36,11 +36,18 @@ class SimulationGroup:
                 try:
                     vs[d] = parent[d]
                 except (TypeError, KeyError):
-                    vs[d] = self.BN[d].fill(vs)
+                    self.BN[d].fill(vs)
 
         prior = 0
         for d in self.Fixed:
             loci = self.BN[d]
+            if parent is not None:
+                for pa in loci.Parents:
+                    if pa not in vs:
+                        try:
+                            vs[pa] = parent[pa]
+                        except KeyError:
+                            pass
             if d not in vs:
                 try:
                     loci.fill(vs)
-- 
2.43.0


From 70a205ac5b120795a99f3e93556b378f18827bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 12/39] fix: variables between fixed variables of a group are
 fixed as well

---
 src/sims_pars/simulation/nodeset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index fcfc6dc..25dd8f2 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -145,8 +145,9 @@ class NodeSet:
             self.__was_fixed = set()
         all_fixed = set.union(self.__was_fixed, self.FixedNodes)
 
+        to_fix = g.upstream(self.__as_fixed)
         for d in med:
-            if bn.has_randomness(d, all_fixed):
+            if d not in to_fix and bn.has_randomness(d, all_fixed):
                 self.FloatingNodes.add(d)
             else:
                 self.FixedNodes.add(d)
-- 
2.43.0


From eba853b7360f6686dfd561ce3ad17a8068ed82eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 13/39] fix: interventions on and clones of parameter cores
 keep the log prior in LogProb

---
 src/sims_pars/simulation/parcore.py   | 15 +++++----------
 src/sims_pars/simulation/simugroup.py |  2 +-
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 400a411..70f74fe 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -198,9 +198,6 @@ class ParameterCore(Chromosome):
         for v in self.Children.values():
             v.__set_response(imp, shocked)
 
-        if shocked_locus:
-            self.reset_probability()
-
     def __dict__(self):
         return dict(self.Locus)
 
@@ -215,7 +212,7 @@ class ParameterCore(Chromosome):
         Log prior with that of offsprings
         :return: log prior probability
         """
-        return self.LogPrior + sum(v.DeepLogPrior for v in self.Children.values())
+        return self.LogProb + sum(v.DeepLogPrior for v in self.Children.values())
 
     def __iter__(self):
         if self.Parent:
@@ -251,8 +248,7 @@ class ParameterCore(Chromosome):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, exo=dict(self))
-        pc_new.LogLikelihood = self.LogLikelihood
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -263,8 +259,7 @@ class ParameterCore(Chromosome):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
-            chd_new.LogLikelihood = chd.LogLikelihood
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
 
 
@@ -450,7 +445,7 @@ class PseudoParameterCore(ParameterCore):
         else:
             sg = self.SG
         pc_new = sg.generate(self.Nickname, dict(self))
-        pc_new.LogPrior = self.LogPrior
+        pc_new.LogProb = self.LogProb
 
         if include_children:
             self.__children_copy(pc_new)
@@ -461,5 +456,5 @@ class PseudoParameterCore(ParameterCore):
         for k, chd in self.Children.items():
             gp = chd.Group
             chd_new = pc_new.breed(k, gp, exo=chd.Locus)
-            chd_new.LogPrior = chd.LogPrior
+            chd_new.LogProb = chd.LogProb
             chd.__children_copy(chd_new)
diff --git a/src/sims_pars/simulation/simugroup.py b/src/sims_pars/simulation/simugroup.py
index b6aafb1..f913e5a 100644
--- a/src/sims_pars/simulation/simugroup.py
+++ b/src/sims_pars/simulation/simugroup.py
@@ -98,7 +98,7 @@ class SimulationGroup:
                 loci.fill(pc)
             prior += loci.evaluate(pc)
 
-        pc.LogPrior = prior
+        pc.LogProb = prior
 
         for act in actors:
             pc.Actors[act].update(pc)
-- 
2.43.0


From 23c391665ee264a3a0ea18109d50f18966f9aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 14/39] fix: distance to a negative point target was negative

---
 src/sims_pars/fit/targets/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/targets/single.py b/src/sims_pars/fit/targets/single.py
index 5d04d05..17acff7 100644
--- a/src/sims_pars/fit/targets/single.py
+++ b/src/sims_pars/fit/targets/single.py
@@ -14,7 +14,7 @@ class DataPointError(AbsSingleData):
     def __init__(self, name, v, error=0.1):
         AbsSingleData.__init__(self, name, v)
         self.Error = error
-        self.Std = error * v / 2 / 1.96
+        self.Std = error * abs(v) / 2 / 1.96
 
     def get_var_obs(self):
         return self.Std ** 2
-- 
2.43.0


From 3d08c6783e7f6be4a70185eb57e3e183685e8e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 15/39] fix: sequential posterior sampling of ABC failed on
 json particles

---
 src/sims_pars/fit/abcom/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abcom/alg.py b/src/sims_pars/fit/abcom/alg.py
index e08de05..0a2fe95 100644
--- a/src/sims_pars/fit/abcom/alg.py
+++ b/src/sims_pars/fit/abcom/alg.py
@@ -106,7 +106,7 @@ class ApproxBayesCom(Fitter):
             n_eval = 0
             for _ in tqdm.tqdm(range(n_collect), 'Collect posterior'):
                 _, sim, ne = sample_ess(self.Model, eps)
-                post.append(sim)
+                post.append(Particle.from_json(sim))
                 n_eval += ne
 
         for pt in post.Particles:
-- 
2.43.0


From 2bc3c73491b9e107f41c140dccd3a777bd5076e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/39] fix: falling back to the original particle in ABC-SMC
 failed

---
 src/sims_pars/fit/abc_smc/alg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 17a097a..98fb662 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -69,7 +69,8 @@ def mutate(p0, steps):
 def sample_mutation(model, pt0, steps, unpack=False):
     di = np.Inf
     n_eval = 0
-    p0 = pt0.Pars if isinstance(pt0, Particle) else pt0['Pars']['Locus']
+    pt0 = pt0 if isinstance(pt0, Particle) else Particle.from_json(pt0)
+    p0 = pt0.Pars
     while np.isinf(di):
         p1 = mutate(p0, steps)
         p1 = model.serve(p1)
@@ -83,7 +84,7 @@ def sample_mutation(model, pt0, steps, unpack=False):
 
         if n_eval > 20:
             sim = pt0
-            di = pt0['distance']
+            di = model.calc_distance(sim)
             break
 
     sim = sim.to_json() if unpack else sim
-- 
2.43.0


From b5ea5d4b79cdbd5886f46999b9aaafbb3b6caaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 17/39] fix: ABC-SMC posteriors ignored the accepted proposals

---
 src/sims_pars/fit/abc_smc/alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/fit/abc_smc/alg.py b/src/sims_pars/fit/abc_smc/alg.py
index 98fb662..f6b9aff 100644
--- a/src/sims_pars/fit/abc_smc/alg.py
+++ b/src/sims_pars/fit/abc_smc/alg.py
@@ -323,7 +323,7 @@ class ApproxBayesComSMC(Fitter):
         for pt1, ptp in zip(theta1, theta_p):
             d_p = ptp['distance']
             if d_p < eps:
-                post.append(pt1)
+                post.append(ptp)
             else:
                 post.append(pt1)
 
-- 
2.43.0


From 077280f20795cd0670d2cf62960b22a2eb4c58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 18/39] fix: train emulators in the unit-interval coordinates
 they are queried in

---
 src/sims_pars/fit/hme/alg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/fit/hme/alg.py b/src/sims_pars/fit/hme/alg.py
index 4c526f9..cd443ad 100644
--- a/src/sims_pars/fit/hme/alg.py
+++ b/src/sims_pars/fit/hme/alg.py
@@ -118,6 +118,7 @@ class BayesHistoryMatching(Fitter):
             pars = {dom.Name: con.uniform2value(x) for dom, con, x in zip(model.Domain, cons, xs)}
             sim = model.simulate(pars)
             model.flatten(sim)
+            sim['Xs'] = xs
             pts_sim.append(sim)
         return pts_sim
 
-- 
2.43.0


From 5b30d5fd8a6842fdd377e4a1a602715c515469fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 19/39] fix: stepping the monitor to time zero

---
 src/sims_pars/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/monitor.py b/src/sims_pars/monitor.py
index 3d8a9a5..06a2ddb 100644
--- a/src/sims_pars/monitor.py
+++ b/src/sims_pars/monitor.py
@@ -47,7 +47,7 @@ class Monitor:
         self.Last = dict()
 
     def step(self, time=None):
-        time = time if time else self.Time + 1
+        time = self.Time + 1 if time is None else time
         if time < self.Time:
             raise KeyError('Backward time specified')
         elif time == self.Time:
-- 
2.43.0


From 106e10320126d75c48ebd7684722fcc876b29573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:42 +0000
Subject: [PATCH 20/39] fix: mean weight without any finite weight is zero

---
 src/sims_pars/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index a83e4db..063b70c 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -82,9 +82,9 @@ def resample(wts, hs, pars=None, log=True, new_size=None):
     size = len(wts)
     if size == 0:
         if pars:
-            return hs, pars, -np.log(size)
+            return hs, pars, -np.inf
         else:
-            return hs, -np.log(size)
+            return hs, -np.inf
 
     hs = [h for h, f in zip(hs, fin) if f]
 
-- 
2.43.0


From 0b7f51b9b66a5209b3bf9f1d16952c07878a93d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 21/39] fix: import paths of the genetic algorithm and the
 legacy fitter

---
 src/sims_pars/fit/ga/__init__.py | 2 +-
 src/sims_pars/fit/ga/alg.py      | 6 +++---
 src/sims_pars/fitting/fitter.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/fit/ga/__init__.py b/src/sims_pars/fit/ga/__init__.py
index 0381e63..3214c58 100644
--- a/src/sims_pars/fit/ga/__init__.py
+++ b/src/sims_pars/fit/ga/__init__.py
@@ -1 +1 @@
-from fit.ga.alg import GeneticAlg
+from sims_pars.fit.ga.alg import GeneticAlg
diff --git a/src/sims_pars/fit/ga/alg.py b/src/sims_pars/fit/ga/alg.py
index b5f7cb0..3d85e86 100644
--- a/src/sims_pars/fit/ga/alg.py
+++ b/src/sims_pars/fit/ga/alg.py
@@ -1,8 +1,8 @@
 from sims_pars.fitting.fitter import Fitter, ParameterSet
 from sims_pars.fitting.util import draw, draw_parallel, serve_and_evaluate, serve_and_evaluate_parallel
-from fit.ga.cross import get_crossover
-from fit.ga.select import get_selector
-from fit.ga.mutate import get_mutator
+from sims_pars.fit.ga.cross import get_crossover
+from sims_pars.fit.ga.select import get_selector
+from sims_pars.fit.ga.mutate import get_mutator
 import numpy as np
 import numpy.random as rd
 from scipy.special import logsumexp
diff --git a/src/sims_pars/fitting/fitter.py b/src/sims_pars/fitting/fitter.py
index a4c9007..6419429 100644
--- a/src/sims_pars/fitting/fitter.py
+++ b/src/sims_pars/fitting/fitter.py
@@ -3,7 +3,7 @@ from sims_pars.bayesnet import Chromosome
 from sims_pars.monitor import Monitor
 from sims_pars.fitting.base import AbsObjective
 from sims_pars.fitting.util import draw
-from fit.results import ParameterSet
+from sims_pars.fit.results import ParameterSet
 from joblib import Parallel, delayed
 
 
-- 
2.43.0


From f09cd09c436d19ae0d27f7e5d11a07a76f09cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 22/39] fix: import paths of the data package

---
 src/sims_pars/data/__init__.py     | 10 +++++-----
 src/sims_pars/data/reg/__init__.py |  8 ++++----
 src/sims_pars/data/reg/glm.py      |  4 ++--
 src/sims_pars/data/reg/hazard.py   |  2 +-
 src/sims_pars/data/reg/linear.py   |  2 +-
 src/sims_pars/data/reg/survival.py |  4 ++--
 src/sims_pars/data/static.py       |  4 ++--
 src/sims_pars/data/timeseries.py   |  4 ++--
 8 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims_pars/data/__init__.py b/src/sims_pars/data/__init__.py
index 72ba13f..41ab4af 100644
--- a/src/sims_pars/data/__init__.py
+++ b/src/sims_pars/data/__init__.py
@@ -1,7 +1,7 @@
-from epidag.data.frame import *
-from epidag.data.static import *
-from epidag.data.timeseries import *
-from epidag.data.datafunction import *
-from epidag.data.reg import *
+from sims_pars.data.frame import *
+from sims_pars.data.static import *
+from sims_pars.data.timeseries import *
+from sims_pars.data.datafunction import *
+from sims_pars.data.reg import *
 
 __author__ = 'TimeWz667'
diff --git a/src/sims_pars/data/reg/__init__.py b/src/sims_pars/data/reg/__init__.py
index ff9a9a1..c53d8e2 100644
--- a/src/sims_pars/data/reg/__init__.py
+++ b/src/sims_pars/data/reg/__init__.py
@@ -1,4 +1,4 @@
-from epidag.data.reg.linear import *
-from epidag.data.reg.glm import *
-from epidag.data.reg.hazard import *
-from epidag.data.reg.survival import *
+from sims_pars.data.reg.linear import *
+from sims_pars.data.reg.glm import *
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.survival import *
diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index fcce1e8..522660a 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.distribution import parse_distribution
-from epidag.data.reg.linear import LinearCombination, Regression
+from sims_pars.prob import parse_distribution
+from sims_pars.data.reg.linear import LinearCombination, Regression
 
 
 __author__ = ['TimeWz667']
diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 459cb73..28f66c2 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -3,7 +3,7 @@ import numpy.random as rd
 from scipy.special import gamma
 from scipy.interpolate import interp1d
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import AbsDistribution
+from sims_pars.prob import AbsDistribution
 
 
 __all__ = ['Hazard', 'ExponentialHazard', 'WeibullHazard', 'EmpiricalHazard',
diff --git a/src/sims_pars/data/reg/linear.py b/src/sims_pars/data/reg/linear.py
index e84a4e6..9df8909 100644
--- a/src/sims_pars/data/reg/linear.py
+++ b/src/sims_pars/data/reg/linear.py
@@ -1,5 +1,5 @@
 from abc import ABCMeta, abstractmethod
-from epidag.distribution import parse_distribution
+from sims_pars.prob import parse_distribution
 
 __author__ = 'TimeWz667'
 __all__ = ['LinearCombination', 'Regression', 'LinearRegression']
diff --git a/src/sims_pars/data/reg/survival.py b/src/sims_pars/data/reg/survival.py
index aab424f..d601f6f 100644
--- a/src/sims_pars/data/reg/survival.py
+++ b/src/sims_pars/data/reg/survival.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.special import expit
-from epidag.data.reg.hazard import *
-from epidag.data.reg.linear import Regression, LinearCombination
+from sims_pars.data.reg.hazard import *
+from sims_pars.data.reg.linear import Regression, LinearCombination
 
 __author__ = 'TimeWz667'
 __all__ = ['CoxRegression', 'ZeroInflatedCoxRegression']
diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index 232670d..d48dfc0 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -1,6 +1,6 @@
 import pandas as pd
-from epidag.distribution import CategoricalRV
-from epidag.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
 
 __author__ = 'TimeWz667'
 __all__ = ['TransitionMatrix', 'ConditionalProbabilityTable']
diff --git a/src/sims_pars/data/timeseries.py b/src/sims_pars/data/timeseries.py
index c9f6b84..bb6ee1a 100644
--- a/src/sims_pars/data/timeseries.py
+++ b/src/sims_pars/data/timeseries.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.interpolate import interp1d
-from epidag.data.frame import AbsDataSet
-from epidag.distribution import CategoricalRV
+from sims_pars.data.frame import AbsDataSet
+from sims_pars.prob import CategoricalRV
 
 __author__ = 'TimeWz667'
 __all__ = ['TimeSeries', 'TimeSeriesVector', 'TimeSeriesProbabilityTable', 'LeeCarter']
-- 
2.43.0


From 782b2faf53501444ac12cad9023a57f1d263d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 23/39] fix: prediction of a Poisson regression used the
 expectation as a size

---
 src/sims_pars/data/reg/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/data/reg/glm.py b/src/sims_pars/data/reg/glm.py
index 522660a..6eff0a2 100644
--- a/src/sims_pars/data/reg/glm.py
+++ b/src/sims_pars/data/reg/glm.py
@@ -44,7 +44,7 @@ class PoissonRegression(Regression):
         return np.exp(mu)
 
     def predict(self, xs):
-        return np.random.poisson(1, self.expectation(xs))
+        return np.random.poisson(self.expectation(xs))
 
     def get_sampler(self, xs):
         return parse_distribution('pois(lam)', {'lam': self.expectation(xs)})
-- 
2.43.0


From 239b2f76b1c345d772829f545746b8f28725b3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 24/39] fix: moments of the Weibull waiting time

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index 28f66c2..b7dba92 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -57,10 +57,10 @@ class WeibullHazard(Hazard):
         return pow(h, 1/self.K) / self.Lambda
 
     def mean(self):
-        return gamma(1+1/self.K) * self.Lambda
+        return gamma(1+1/self.K) / self.Lambda
 
     def std(self):
-        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) * self.Lambda
+        return np.sqrt(gamma(1+2/self.K) - gamma(1+1/self.K)**2) / self.Lambda
 
 
 class EmpiricalHazard(Hazard):
-- 
2.43.0


From 01a3c6aa3169dcd1422b298e0473720a16b25bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 25/39] fix: an empirical hazard could not be built

---
 src/sims_pars/data/reg/hazard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index b7dba92..a3bf526 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -67,8 +67,8 @@ class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
-        self.FnCumHaz = interp1d(times, cum_haz, fill_value=[0, self.MaxHaz])
-        self.FnInvCumHaz = interp1d(cum_haz, times, fill_value=[0, self.MaxTime])
+        self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
+        self.FnInvCumHaz = interp1d(cum_haz, times, bounds_error=False, fill_value=(0, self.MaxTime))
 
     def cum_hazard(self, t):
         return self.FnCumHaz(t)
-- 
2.43.0


From b5ca7ec5291e12542adb0f048b4b0f4f0ddfa60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:01 +0000
Subject: [PATCH 26/39] fix: sampling from a transition matrix

---
 src/sims_pars/data/static.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sims_pars/data/static.py b/src/sims_pars/data/static.py
index d48dfc0..83e8f27 100644
--- a/src/sims_pars/data/static.py
+++ b/src/sims_pars/data/static.py
@@ -27,14 +27,13 @@ class TransitionMatrix(AbsDataSet):
 
     def sample(self, n=1, **kwargs):
         if n == 1:
-            return self(current=kwargs)
+            return self(current=kwargs['current'])
         else:
             if 'currents' in kwargs:
                 ks = kwargs['currents']
             else:
-                ks = [kwargs['current']]
-            n = max(n, len(ks))
-            return [self(current=k) for k in zip(range(n), ks)]
+                ks = [kwargs['current']] * n
+            return [self(current=k) for k in ks]
 
     def __repr__(self):
         return 'Transition Matrix: {}'.format(', '.join(self.StateFrom))
-- 
2.43.0


From 6fca917e5844e81bcebd918dbf78dc705e21e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 27/39] fix: misspelt calls in ParameterCore

---
 src/sims_pars/simulation/parcore.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 70f74fe..092a113 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -61,7 +61,7 @@ class ParameterCore(Chromosome):
     def duplicate(self, nickname):
         if not self.Parent:
             raise AttributeError('Root node can not be duplicated')
-        return self.Parent.bread(nickname, self.Group, exo=self.Locus)
+        return self.Parent.breed(nickname, self.Group, exo=self.Locus)
 
     def detach_from_parent(self, collect_pars=False):
         """
@@ -74,7 +74,7 @@ class ParameterCore(Chromosome):
         if collect_pars:
             for k, v in self.Parent:
                 self[k] = v
-            self.SG.set_local_actors(self)
+            self.SG.put_local_actors(self)
 
         self.Parent = None
 
@@ -134,8 +134,9 @@ class ParameterCore(Chromosome):
 
         try:
             ca = self.ChildrenActors[group]
-        except KeyError:
-            ca = self.SG.SC[group].get_shared_actors(self)
+        except (KeyError, TypeError):
+            self.SG.SC[group].put_shared_actors_on_parent(self)
+            ca = self.ChildrenActors[group]
         return ca
 
     def find_descendant(self, address):
@@ -204,7 +205,7 @@ class ParameterCore(Chromosome):
     def reset_sc(self, sc):
         self.SG = sc[self.SG.Name]
         for v in self.Children.values():
-            v.reset_sc(self, sc)
+            v.reset_sc(sc)
 
     @property
     def DeepLogPrior(self):
-- 
2.43.0


From e7b75db0a0f1f7a8fd0f53dda3230f3ae24a0fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 28/39] fix: variables needed by both fixed and floating ones
 were allocated as both

---
 src/sims_pars/simulation/nodeset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 25dd8f2..30bfd6b 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -215,7 +215,7 @@ class NodeSet:
             self.ExoNodes.difference_update(to_hoist)
 
         given = set.union(self.FixedNodes, self.ExoNodes, self.__was_fixed)
-        to_shift = [d for d in self.ListeningNodes if d not in self.__was_fixed]
+        to_shift = [d for d in self.ListeningNodes if d not in given]
         to_shift = [d for d in to_shift if not bn.is_exogenous(d)]
         for d in to_shift:
             if bn.has_randomness(d, given):
-- 
2.43.0


From 2b1e11003a20893760cbd70ea78e4132b6a9a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 29/39] fix: variables depending on others located late were
 left out of every group

---
 src/sims_pars/simulation/nodeset.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 30bfd6b..25030c1 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -238,7 +238,7 @@ class NodeSet:
         return nodes
 
     def _pass_down_undefined(self, bn, fixed, floating, nodes):
-        to_pass_down = set()
+        to_pass_down = list()
         gfi = set(self.FixedNodes)
         gfi.update(fixed)
 
@@ -254,10 +254,13 @@ class NodeSet:
                     self.FloatingNodes.add(node)
                 else:
                     self.FixedNodes.add(node)
+                    gfi.add(node)
+                gfl.add(node)
             elif ps <= gfl:
                 self.FloatingNodes.add(node)
+                gfl.add(node)
             else:
-                to_pass_down.add(node)
+                to_pass_down.append(node)
         for ch in self.__children.values():
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
-- 
2.43.0


From 16db69901e283b9b72da2cb771261ea48d148ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 30/39] fix: variables hoisted to a parent group were fixed
 again by its descendants

---
 src/sims_pars/simulation/nodeset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 25030c1..2be3db5 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -210,6 +210,7 @@ class NodeSet:
         if self.__parent:
             for d in to_hoist:
                 self.__parent._hoist_node(d)
+                self.__was_fixed.add(d)
         else:
             self.FixedNodes.update(to_hoist)
             self.ExoNodes.difference_update(to_hoist)
-- 
2.43.0


From 0618e4b171d8a5ec89847234c83ad61dee6038b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:54 +0000
Subject: [PATCH 31/39] fix: groups ignored the variables their parents fix on
 demand

---
 src/sims_pars/simulation/nodeset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 2be3db5..2166438 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -228,6 +228,7 @@ class NodeSet:
         self.ListeningNodes.difference_update(self.FloatingNodes)
 
         for ch in self.__children.values():
+            ch.__was_fixed.update(self.__was_fixed, self.FixedNodes)
             ch._resolve_relations(bn)
 
     def _claim_used_nodes(self):
-- 
2.43.0


From 113a2d167d582379e04ca87933e098f96706ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:08 +0000
Subject: [PATCH 32/39] fix: variables hoisted to a parent group stayed
 floating there

---
 src/sims_pars/simulation/nodeset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 2166438..41998ac 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -189,6 +189,7 @@ class NodeSet:
     def _hoist_node(self, node):
         if node not in self.__was_fixed:
             self.FixedNodes.add(node)
+            self.FloatingNodes.discard(node)
             self.__was_fixed.add(node)
 
     def _raise_up_floating(self):
-- 
2.43.0


From 865c579a86dd37d4696e8bce4ee542ea63c9e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:08 +0000
Subject: [PATCH 33/39] fix: groups ignored the variables located late in their
 parents

---
 src/sims_pars/simulation/nodeset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims_pars/simulation/nodeset.py b/src/sims_pars/simulation/nodeset.py
index 41998ac..6226d94 100644
--- a/src/sims_pars/simulation/nodeset.py
+++ b/src/sims_pars/simulation/nodeset.py
@@ -265,6 +265,7 @@ class NodeSet:
             else:
                 to_pass_down.append(node)
         for ch in self.__children.values():
+            ch.__was_fixed.update(gfi)
             ch._pass_down_undefined(bn, gfi, gfl, to_pass_down)
 
     def _locate_undefined(self, bn):
-- 
2.43.0


From 49458553f7864a41da2807e6a5a043d1ae40d7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:16 +0000
Subject: [PATCH 34/39] fix: samplers of intervened variables were not
 refreshed

---
 src/sims_pars/simulation/parcore.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims_pars/simulation/parcore.py b/src/sims_pars/simulation/parcore.py
index 092a113..511e861 100644
--- a/src/sims_pars/simulation/parcore.py
+++ b/src/sims_pars/simulation/parcore.py
@@ -166,7 +166,6 @@ class ParameterCore(Chromosome):
             shocked = g.downstream(imp.keys())
             non_imp = [k for k, v in imp.items() if v is None]
             imp = {k: v for k, v in imp.items() if v is not None}
-            shocked.difference_update(imp.keys())
             shocked = shocked.union(non_imp)
         elif isinstance(imp, list):
             shocked = g.downstream(imp)
-- 
2.43.0


From e8da260404a74e79b2286a85becbcdf11031829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 35/39] fix: moments and densities of survival times

---
 src/sims_pars/data/reg/hazard.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/sims_pars/data/reg/hazard.py b/src/sims_pars/data/reg/hazard.py
index a3bf526..18b2749 100644
--- a/src/sims_pars/data/reg/hazard.py
+++ b/src/sims_pars/data/reg/hazard.py
@@ -19,6 +19,13 @@ class Hazard(metaclass=ABCMeta):
     def inv_cum_hazard(self, h):
         pass
 
+    @abstractmethod
+    def scale(self, rr):
+        """
+        The hazard multiplied by a risk ratio
+        """
+        pass
+
     @abstractmethod
     def mean(self):
         pass
@@ -38,6 +45,9 @@ class ExponentialHazard(Hazard):
     def inv_cum_hazard(self, h):
         return h / self.Rate
 
+    def scale(self, rr):
+        return ExponentialHazard(self.Rate * rr)
+
     def mean(self):
         return 1 / self.Rate
 
@@ -56,6 +66,9 @@ class WeibullHazard(Hazard):
     def inv_cum_hazard(self, h):
         return pow(h, 1/self.K) / self.Lambda
 
+    def scale(self, rr):
+        return WeibullHazard(self.Lambda * pow(rr, 1/self.K), self.K)
+
     def mean(self):
         return gamma(1+1/self.K) / self.Lambda
 
@@ -65,6 +78,8 @@ class WeibullHazard(Hazard):
 
 class EmpiricalHazard(Hazard):
     def __init__(self, times, cum_haz):
+        self.Times = times
+        self.CumHaz = cum_haz
         self.MaxTime = max(times)
         self.MaxHaz = max(cum_haz)
         self.FnCumHaz = interp1d(times, cum_haz, bounds_error=False, fill_value=(0, self.MaxHaz))
@@ -76,6 +91,9 @@ class EmpiricalHazard(Hazard):
     def inv_cum_hazard(self, h):
         return self.FnInvCumHaz(h)
 
+    def scale(self, rr):
+        return EmpiricalHazard(self.Times, [h * rr for h in self.CumHaz])
+
     def mean(self):
         return None  # todo
 
@@ -105,15 +123,15 @@ class HazardDistribution(AbsDistribution):
             return [self.Hazard.inv_cum_hazard(s) for s in ss]
 
     def logpdf(self, v):
-        s1 = np.expm1(-self.Hazard.cum_hazard(v))
-        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5))
-        return np.log((s1 - s2)/1E-5)
+        s1 = np.expm1(-self.Hazard.cum_hazard(v) * self.RiskRatio)
+        s2 = np.expm1(-self.Hazard.cum_hazard(v - 1E-5) * self.RiskRatio)
+        return np.log((s2 - s1)/1E-5)
 
     def mean(self):
-        return 1 / self.Hazard.mean() / self.RiskRatio
+        return self.Hazard.scale(self.RiskRatio).mean()
 
     def std(self):
-        return pow(self.RiskRatio, -2) / self.Hazard.std()
+        return self.Hazard.scale(self.RiskRatio).std()
 
 
 class ZeroInflatedHazardDistribution(HazardDistribution):
@@ -139,3 +157,7 @@ class ZeroInflatedHazardDistribution(HazardDistribution):
 
     def mean(self):
         return HazardDistribution.mean(self) * (1-self.Prob)
+
+    def std(self):
+        mu, sd = HazardDistribution.mean(self), HazardDistribution.std(self)
+        return np.sqrt((1-self.Prob) * (sd**2 + self.Prob * mu**2))
-- 
2.43.0


From d962b5bd70411ba953cd0f472200a2548fcc4ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:52 +0000
Subject: [PATCH 36/39] fix: a variable named as a distribution hid that
 distribution

---
 src/sims_pars/factory/craftstation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index ed63a0f..e064773 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -58,7 +58,11 @@ class Atelier:
     def get_blueprint(self, seq, loc=None, to_complete=True):
         if to_complete:
             seq = self.complete_def(seq)
-        return eval(seq, self.Creators, loc)
+        call = ast.parse(seq, mode='eval').body
+        # only the name of the call refers to a creator: a variable may have the same name
+        args = [eval(ast.unparse(arg), self.Creators, loc) for arg in call.args]
+        named = {arg.arg: eval(ast.unparse(arg.value), self.Creators, loc) for arg in call.keywords}
+        return self.Creators[call.func.id](*args, **named)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
         bp = self.get_blueprint(seq, loc=loc, to_complete=to_complete)
-- 
2.43.0


From 78d0bd6bb970d5cb25380d509a6a2e5927e57b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 37/39] fix: an unrelated variable named as a function hid that
 function in expressions

---
 src/sims_pars/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/util.py b/src/sims_pars/util.py
index 063b70c..996ba64 100644
--- a/src/sims_pars/util.py
+++ b/src/sims_pars/util.py
@@ -135,8 +135,14 @@ class MathExpression:
             return self.Expression
 
     def execute(self, loc=None):
-        loc = dict(loc) if loc else dict()
-        return eval(self.Expression, MATH_FUNC, loc)
+        # only its own variables: others may have the names of the functions
+        own = dict()
+        for v in self.Var:
+            try:
+                own[v] = loc[v]
+            except (KeyError, TypeError):
+                pass
+        return eval(self.Expression, MATH_FUNC, own)
 
     @property
     def Parents(self):
-- 
2.43.0


From 695da9c36402e6e020a2081533320cce36d3fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 38/39] fix: arguments of distributions could not use the math
 functions

---
 src/sims_pars/factory/craftstation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims_pars/factory/craftstation.py b/src/sims_pars/factory/craftstation.py
index e064773..b655221 100644
--- a/src/sims_pars/factory/craftstation.py
+++ b/src/sims_pars/factory/craftstation.py
@@ -1,6 +1,7 @@
 from pydantic import BaseModel, ValidationError
 from abc import ABCMeta, abstractmethod
 import ast
+from sims_pars.util import parse_math_expression
 
 __author__ = 'Chu-Chang Ku'
 __all__ = ['Atelier', 'AbsCreator']
@@ -60,8 +61,8 @@ class Atelier:
             seq = self.complete_def(seq)
         call = ast.parse(seq, mode='eval').body
         # only the name of the call refers to a creator: a variable may have the same name
-        args = [eval(ast.unparse(arg), self.Creators, loc) for arg in call.args]
-        named = {arg.arg: eval(ast.unparse(arg.value), self.Creators, loc) for arg in call.keywords}
+        args = [parse_math_expression(ast.unparse(arg)).execute(loc) for arg in call.args]
+        named = {arg.arg: parse_math_expression(ast.unparse(arg.value)).execute(loc) for arg in call.keywords}
         return self.Creators[call.func.id](*args, **named)
 
     def create(self, seq, loc=None, append_src=False, to_complete=True):
-- 
2.43.0


From 9b82e541d1003259961297c2de3bb3ff4adb7518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:09 +0000
Subject: [PATCH 39/39] fix: the default shape of invgamma was rejected by its
 own validation

---
 src/sims_pars/prob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims_pars/prob.py b/src/sims_pars/prob.py
index d62a4a8..8c14ea6 100644
--- a/src/sims_pars/prob.py
+++ b/src/sims_pars/prob.py
@@ -330,7 +330,7 @@ DistributionCentre.register('beta', CreBeta)
 
 
 class CreInvGamma(AbsCreator):
-    a: ptp.confloat(gt=2) = 2.0
+    a: ptp.confloat(gt=2) = 3.0
     rate: ptp.PositiveFloat = 1.0
 
     def create(self):
-- 
2.43.0

