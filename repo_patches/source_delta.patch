From bdbebfd94ddef9a82575c78d37c2029c93f2538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:37 +0000
Subject: [PATCH 01/46] fix: compare identityref list keys by value, not by
 their raw text

Two spellings of one key (different prefixes for the same module) were
treated as different list entries, and one spelling meaning two different
identities as the same entry.
---
 src/ncdiff/calculator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..ecc804a 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -153,13 +153,11 @@ class BaseCalculator(object):
                                           self.device.get_xpath(node)))
             return s[0]
 
-        def build_index_tuple(node, keys, s_node):
+        def build_index_tuple(node, keys):
             """
             build a tuple containing the text of all fields listed in keys, taken from node
-
-            s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -192,7 +190,7 @@ class BaseCalculator(object):
                 key = self._parse_text(child, s_node)
             elif node_type == 'list':
                 keys = self._get_list_keys(s_node)
-                key = build_index_tuple(child, keys, s_node)
+                key = build_index_tuple(child, keys)
             return (tag, key)
 
         # build the hashmap for node_one
-- 
2.43.0


From 2aa7cc8246a32ef3b2891f3d8b76432b166bc059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:03 +0000
Subject: [PATCH 02/46] fix: adding a delta that sets an identityref to another
 module's identity

Applying such a delta raised ConfigError when the namespace of the new value
was not declared in the scope of the existing leaf.
---
 src/ncdiff/netconf.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..61f9917 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -780,9 +780,16 @@ class NetconfCalculator(BaseCalculator):
         '''
 
         this_operation = child_other.get(operation_tag, default='merge')
-        if this_operation == 'merge':
-            self._merge_text(child_other, child_self)
-        elif this_operation == 'replace':
+        if this_operation == 'merge' or \
+           this_operation == 'replace':
+            # The new value may refer to namespaces that are not declared in
+            # the scope of child_self, and it is not possible to modify the
+            # namespace mapping of an existing node in lxml.
+            if not (set(child_other.nsmap.values()) <=
+                    set(child_self.nsmap.values())):
+                e = etree.Element(child_self.tag, nsmap=child_other.nsmap)
+                child_self.getparent().replace(child_self, e)
+                child_self = e
             self._merge_text(child_other, child_self)
         elif this_operation == 'create':
             raise ConfigDeltaError('data-exists: try to create node {} but '
-- 
2.43.0


From 7acf68e59db7f1f0cc30f02d695591ce24dd6496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:03 +0000
Subject: [PATCH 03/46] fix: apply the implicit deletion of other cases when
 adding to a config

The delta between two configs that use different cases of a choice relies on
the RFC7950 section 7.9 rule that creating a node in one case deletes the nodes
of all other cases, but adding that delta to a config kept both cases.
---
 src/ncdiff/netconf.py | 77 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 77 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 61f9917..592edca 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -539,6 +539,83 @@ class NetconfCalculator(BaseCalculator):
                 ):
                     node_sum.remove(child_self)
 
+        self._remove_other_cases(node_sum, node_other)
+
+    def _get_cases(self, node):
+        '''_get_cases
+
+        Low-level api: Find out which cases a config node belongs to.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A config node in a config tree.
+
+        Returns
+        -------
+
+        dict
+            Keys are choice schema nodes and values are case schema nodes.
+        '''
+
+        cases = {}
+        ancestor = self.device.get_schema_node(node).getparent()
+        while (
+            ancestor is not None and
+            ancestor.get('type') in ['choice', 'case']
+        ):
+            if ancestor.get('type') == 'case':
+                cases[ancestor.getparent()] = ancestor
+            ancestor = ancestor.getparent()
+        return cases
+
+    def _remove_other_cases(self, node_sum, node_other):
+        '''_remove_other_cases
+
+        Low-level api: As per RFC7950 section 7.9, creating a node in one case
+        of a choice implicitly deletes all nodes in the other cases. This
+        method is called after node_other has been applied to node_sum.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        node_other : `Element`
+            A config node in another config tree, which has been applied.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        tags = set(c.tag for c in node_other
+                   if c.get(operation_tag) not in ['delete', 'remove'])
+        for child in node_sum.getchildren():
+            if child.tag not in tags:
+                continue
+            s_node = self.device.get_schema_node(child)
+            if (
+                s_node.get('type') == 'container' and
+                s_node.get('presence') != 'true' and
+                not list(child)
+            ):
+                continue
+            cases = self._get_cases(child)
+            if not cases:
+                continue
+            for sibling in node_sum.getchildren():
+                if sibling.tag in tags:
+                    continue
+                sibling_cases = self._get_cases(sibling)
+                if any(c in sibling_cases and sibling_cases[c] is not cases[c]
+                       for c in cases):
+                    node_sum.remove(sibling)
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From feef79ea38608b8a8cae526e2190dd4af3248b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:05 +0000
Subject: [PATCH 04/46] fix: do not set the replace operation on the config
 element itself

With preferred_replace='replace', a difference in a leaf-list at the top level
put operation='replace' on <config>, where it is not allowed, and adding that
delta to the source config did not give the destination config.
---
 src/ncdiff/netconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 592edca..c25d6e1 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1137,7 +1137,8 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        if self.preferred_replace != 'merge':
+        # Operations are set on nodes inside the config element, not on itself
+        if self.preferred_replace != 'merge' and node_self.tag != config_tag:
             t_self = [
                 c.tag for c in list(node_self)
                 if self.device.get_schema_node(c).get('type') == 'leaf-list'
-- 
2.43.0


From 18b678bd9e893436d419ea4954ddadac148d504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:56 +0000
Subject: [PATCH 05/46] fix: apply edits of user-ordered nodes in the order of
 the edit-config

New nodes were inserted first and existing nodes were then moved in the order
of the config, so adding a delta with several moves of user-ordered nodes could
give an order different from the destination config.
---
 src/ncdiff/netconf.py | 85 ++++++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 26 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index c25d6e1..b217875 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -162,6 +162,13 @@ class NetconfCalculator(BaseCalculator):
         'minimum-replace'. The default value of replace_xpath is None.
     '''
 
+    supported_node_type = [
+        'leaf',
+        'leaf-list',
+        'container',
+        'list',
+        ]
+
     def __init__(self, device, etree1, etree2,
                  preferred_create='merge',
                  preferred_replace='merge',
@@ -471,18 +478,19 @@ class NetconfCalculator(BaseCalculator):
             There is no return of this method.
         '''
 
-        supported_node_type = [
-            'leaf',
-            'leaf-list',
-            'container',
-            'list',
-            ]
         in_s_not_in_o, in_o_not_in_s, in_s_and_in_o = \
             self._group_kids(node_sum, node_other)
-        for child_self in in_s_not_in_o:
-            pass
+        peers = {child_other: child_self
+                 for child_self, child_other in in_s_and_in_o}
+
+        # When there are multiple moves or insertions of user-ordered nodes,
+        # the outcome depends on their order in node_other.
+        for child_other in node_other.getchildren():
+            if child_other in peers:
+                self._node_add_with_peer(node_sum, peers[child_other],
+                                         child_other)
+                continue
 
-        for child_other in in_o_not_in_s:
             this_operation = child_other.get(operation_tag, default='merge')
 
             # delete
@@ -505,7 +513,7 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'create'
             ):
                 s_node = self.device.get_schema_node(child_other)
-                if s_node.get('type') in supported_node_type:
+                if s_node.get('type') in self.supported_node_type:
                     getattr(
                         self,
                         '_node_add_without_peer_{}'.format(
@@ -522,24 +530,49 @@ class NetconfCalculator(BaseCalculator):
                     )
                 )
 
-        for child_self, child_other in in_s_and_in_o:
-            s_node = self.device.get_schema_node(child_self)
-            if s_node.get('type') in supported_node_type:
-                getattr(
-                    self,
-                    '_node_add_with_peer_{}'.format(
-                        s_node.get('type').replace('-', '')
-                    )
-                )(child_self, child_other)
+        self._remove_other_cases(node_sum, node_other)
 
-            if not list(child_self):
-                if (
-                    s_node.get('type') == 'container' and
-                    s_node.get('presence') != 'true'
-                ):
-                    node_sum.remove(child_self)
+    def _node_add_with_peer(self, node_sum, child_self, child_other):
+        '''_node_add_with_peer
 
-        self._remove_other_cases(node_sum, node_other)
+        Low-level api: Apply delta child_other to child_self when child_self,
+        which is a child of node_sum, is the peer of child_other.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        child_self : `Element`
+            A child of node_sum.
+
+        child_other : `Element`
+            A child of a config node in another config tree. child_self is
+            the peer of child_other.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        s_node = self.device.get_schema_node(child_self)
+        if s_node.get('type') in self.supported_node_type:
+            getattr(
+                self,
+                '_node_add_with_peer_{}'.format(
+                    s_node.get('type').replace('-', '')
+                )
+            )(child_self, child_other)
+
+        if not list(child_self):
+            if (
+                s_node.get('type') == 'container' and
+                s_node.get('presence') != 'true'
+            ):
+                node_sum.remove(child_self)
 
     def _get_cases(self, node):
         '''_get_cases
-- 
2.43.0


From 1a39cf16ecbf197d8de7cc1d73b8061b3c2bd7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:29 +0000
Subject: [PATCH 06/46] fix: generate a random seed when random_depth is given
 without one

As documented, a seed is generated automatically if random_depth is set but
random_seed is None; instead no randomization happened at all.
---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..7d753e0 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -671,7 +671,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From acf8a726c9600374536a756afc5d1da9b231e90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:41 +0000
Subject: [PATCH 07/46] fix: keep the relative order of user-ordered nodes when
 randomizing a delta

Shuffling insertions and moves that refer to one another changed the config
that the delta leads to.
---
 src/ncdiff/config.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 7d753e0..08888e9 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -825,16 +825,27 @@ class ConfigDelta(object):
                 num_keys += 1
             else:
                 break
+        old_sequence = list(range(num_keys, length))
         if length - num_keys == 2:
-            node.remove(buffer[num_keys])
-            node.append(buffer[num_keys])
+            new_sequence = list(reversed(old_sequence))
         elif length - num_keys > 2:
             random.seed(seed)
-            old_sequence = list(range(num_keys, length))
             new_sequence = random.sample(
                 range(num_keys, length), length - num_keys)
-            [node.remove(buffer[i]) for i in reversed(old_sequence)]
-            [node.append(buffer[i]) for i in new_sequence]
+        else:
+            return
+
+        # Moves and insertions of user-ordered nodes depend on one another, so
+        # their relative order has to be kept.
+        for tag in set(j.tag for j in buffer.values()):
+            positions = [p for p, i in enumerate(new_sequence)
+                         if buffer[i].tag == tag and
+                         buffer[i].get(insert_tag) is not None]
+            for p, i in zip(positions,
+                            sorted(new_sequence[p] for p in positions)):
+                new_sequence[p] = i
+        [node.remove(buffer[i]) for i in reversed(old_sequence)]
+        [node.append(buffer[i]) for i in new_sequence]
 
 
     def reorder(self,node, seed, depth, current_depth):
-- 
2.43.0


From 10a1b9bf95202b8fdecfea512d9cab40d5c70cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:14 +0000
Subject: [PATCH 08/46] fix: do not trim a list key that equals its default
 value

As per RFC7950 section 7.8.2 the default values of key leafs are ignored. A
list entry whose key had such a value was rejected because of a missing key.
---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 08888e9..8affb40 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -403,6 +403,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From 332275482a647117506ce79b183c919ada2638c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:40 +0000
Subject: [PATCH 09/46] fix: accept an empty list entry at the root of a config

---
 src/ncdiff/config.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 8affb40..a8d22b2 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -393,9 +393,8 @@ class Config(object):
                 child_schema_node.get('type') == 'list'
             ):
                 logger.debug(
-                    "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    "empty list entry {} is pruned"
+                    .format(self.device.get_xpath(child)))
                 node.remove(child)
 
             # cleanup leaf with default value
@@ -500,9 +499,8 @@ class Config(object):
                 child_schema_node.get('type') == 'list'
             ):
                 logger.debug(
-                    "empty list entry {} under {} is pruned"
-                    .format(child.tag,
-                            self.device.get_xpath(child.getparent())))
+                    "empty list entry {} is pruned"
+                    .format(self.device.get_xpath(child)))
                 node.remove(child)
 
             # cleanup obsoleted or deprecated nodes
-- 
2.43.0


From c7f8b36c80c1ba7f10ef73f8d2fd941263fc2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:40 +0000
Subject: [PATCH 10/46] fix: reject edit-config attributes on leaf nodes when
 validating a config

---
 src/ncdiff/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index a8d22b2..89db7bc 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -468,13 +468,15 @@ class Config(object):
                         p = self.device.get_xpath(node, instance=False)
                         raise ConfigError("missing key '{}' of the config "
                                           "node {}".format(key, p))
+
+        for child in node:
+
             for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if node.get(tag):
+                if child.get(tag):
                     raise ConfigError("the config node contains invalid "
                                       "attribute '{}': {}"
-                                      .format(tag, self.device.get_xpath(node)))
-
-        for child in node:
+                                      .format(tag,
+                                              self.device.get_xpath(child)))
 
             child_schema_node = self.device.get_schema_node(child)
             if child_schema_node is None:
-- 
2.43.0


From ef3de11728d0da7579484ff82f752866abf6c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:40 +0000
Subject: [PATCH 11/46] fix: no empty containers left behind when extracting
 config from a reply of get

---
 src/ncdiff/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..5d3dcca 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -525,6 +525,9 @@ class ModelDevice(manager.Manager):
         config = Config(self, reply, validate=True,
                         remove_deprecated=remove_deprecated)
         remove_read_only(config.ele)
+
+        # some containers might have become empty
+        config.trim_defaults()
         return config
 
     def get_schema_node(self, config_node):
-- 
2.43.0


From 3e4b515a4be33b15db2bd06c1914aefebc7b3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:40 +0000
Subject: [PATCH 12/46] fix: ignore XML comments inside a config

---
 src/ncdiff/netconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index b217875..f5297e7 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -40,7 +40,7 @@ def _copy_element(new_parent, element):
                                  nsmap=element.nsmap)
     if element.text is not None:
         new_child.text = element.text
-    for subelement in element:
+    for subelement in element.iterchildren(tag=etree.Element):
         _copy_element(new_child, subelement)
 
 
-- 
2.43.0


From d2674e0c376b51fdb68c1f086a1c6fd631c8c767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:48 +0000
Subject: [PATCH 13/46] fix: keep the order of user-ordered nodes in new
 subtrees when randomizing a delta

---
 src/ncdiff/config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 89db7bc..75b015f 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -836,12 +836,13 @@ class ConfigDelta(object):
         else:
             return
 
-        # Moves and insertions of user-ordered nodes depend on one another, so
-        # their relative order has to be kept.
-        for tag in set(j.tag for j in buffer.values()):
+        # The order of user-ordered nodes is significant, so their relative
+        # order has to be kept.
+        for tag in set(j.tag for j in buffer.values()
+                       if self.device.get_schema_node(j)
+                       .get('ordered-by') == 'user'):
             positions = [p for p, i in enumerate(new_sequence)
-                         if buffer[i].tag == tag and
-                         buffer[i].get(insert_tag) is not None]
+                         if buffer[i].tag == tag]
             for p, i in zip(positions,
                             sorted(new_sequence[p] for p in positions)):
                 new_sequence[p] = i
-- 
2.43.0


From 2d8e8b35d54894f27d67c956e30e534f4134caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:09 +0000
Subject: [PATCH 14/46] fix: compare running-config commands word by word,
 "vlan 10" does not extend "vlan 1"

---
 src/ncdiff/runningconfig.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..f63adf3 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -540,9 +540,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if self.is_extended(k, key)]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -765,6 +765,12 @@ class RunningConfigDiff(object):
                 return True, idx
         return False, None
 
+    @staticmethod
+    def is_extended(cmd, longer_cmd):
+        # Commands are compared word by word, e.g., "vlan 10" does not extend
+        # "vlan 1".
+        return longer_cmd == cmd or longer_cmd.startswith(cmd.rstrip() + ' ')
+
     @staticmethod
     def remove_duplicate_cammands(config_list):
         indexes = []
@@ -815,12 +821,11 @@ class RunningConfigDiff(object):
             for idx2_tmp in range(idx1_tmp + 1, len(cmds)):
                 idx2 = cmds[idx2_tmp]
                 c2 = negative_list[idx2]
-                if c1 == c2 or len(c1) == len(c2):
+                if c1 == c2:
                     continue
-                if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
-                        indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                if RunningConfigDiff.is_extended(c1, c2):
+                    indexes.add(idx2)
+                elif RunningConfigDiff.is_extended(c2, c1):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -836,12 +841,11 @@ class RunningConfigDiff(object):
             for idx2_tmp in range(idx1_tmp + 1, len(cmds)):
                 idx2 = cmds[idx2_tmp]
                 c2 = positive_list[idx2]
-                if c1 == c2 or len(c1) == len(c2):
+                if c1 == c2:
                     continue
-                if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
-                        indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                if RunningConfigDiff.is_extended(c1, c2):
+                    indexes.add(idx1)
+                elif RunningConfigDiff.is_extended(c2, c1):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From fa9d1c87421f7190c0360edbcb482edf168687b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:02 +0000
Subject: [PATCH 15/46] fix: no bare command in running-config CLIs when a "no"
 line is replaced by its positive form

---
 src/ncdiff/runningconfig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index f63adf3..3dd8c55 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -540,9 +540,12 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
+                    # - no ip address
+                    # + ip address 10.0.0.1 255.0.0.0
                     matching_positive_keys = [
                         key for key in positive_keys
-                        if self.is_extended(k, key)]
+                        if self.is_extended(k, key) or
+                        k[:3] == 'no ' and self.is_extended(k[3:], key)]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
-- 
2.43.0


From aa8154390fe6900acb01b96432b88e8229869f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:15 +0000
Subject: [PATCH 16/46] fix: no diff between identical running-configs that
 repeat a line

---
 src/ncdiff/runningconfig.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 3dd8c55..ee1ca6e 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -308,12 +308,14 @@ class ListDiff(object):
         for index, item in enumerate(diff_1):
             key, value, info = item
             if info == '?':
-                keys_after = set([k for k, v, i in diff_1[index+1:]])
+                keys_after = set([k for k, v, i in diff_1[index+1:]
+                                  if i in ('+', '-')])
                 if keys_before & keys_after:
                     diff_2.append((key, value, ''))
             else:
                 diff_2.append((key, value, info))
-            keys_before.add(key)
+            if info in ('+', '-'):
+                keys_before.add(key)
 
         return diff_2
 
-- 
2.43.0


From c5508df1f1605ed62c8c994411f64dce4b75c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 17/46] fix: keep repeated lines apart when handling orderless
 running-config lines

---
 src/ncdiff/runningconfig.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index ee1ca6e..fe8df15 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -640,6 +640,13 @@ class RunningConfigDiff(object):
 
     @staticmethod
     def handle_orderless(list1, list2, depth):
+        # Tell repeated lines apart while they are handled
+        for config_list in [list1, list2]:
+            count = {}
+            for idx, (line, v, i) in enumerate(config_list):
+                count[line] = count.get(line, 0) + 1
+                config_list[idx] = (line + '\n' * (count[line] - 1), v, i)
+
         # Find lines that are orderless
         lines_list1 = [i[0] for i in list1]
         lines_list2 = [i[0] for i in list2]
@@ -761,6 +768,9 @@ class RunningConfigDiff(object):
                                                list2[lines2[line]][1],
                                                depth + 1)
 
+        for config_list in [list1, list2]:
+            config_list[:] = [(k.rstrip('\n'), v, i)
+                              for k, v, i in config_list]
         return list1, list2
 
     @staticmethod
-- 
2.43.0


From c0740b273c42a3762d6ce50b8e7de077f20863f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:49 +0000
Subject: [PATCH 18/46] fix: quote key values with apostrophes and handle empty
 values when moving user-ordered nodes

---
 src/ncdiff/netconf.py | 44 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index f5297e7..cd007bf 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -441,7 +441,7 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text)
+                        item.set(value_tag, precursor.text or '')
                     else:
                         keys = ordered_by_user[tag]
                         key_nodes = {k: precursor.find(k) for k in keys}
@@ -450,7 +450,7 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            self._get_predicate(ids[k], key_nodes[k].text)
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -722,7 +722,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -734,7 +734,7 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if s.text == child_other.get(value_tag)]
+                           if (s.text or '') == child_other.get(value_tag)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -968,7 +968,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -982,7 +982,7 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if s.text == child_other.get(value_tag)]
+                               if (s.text or '') == child_other.get(value_tag)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1365,7 +1365,7 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text)
+                            item.set(value_tag, precursor.text or '')
                         else:
                             keys = ordered_by_user[tag]
                             key_nodes = {k: precursor.find(k) for k in keys}
@@ -1374,7 +1374,7 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                self._get_predicate(ids[k], key_nodes[k].text)
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
@@ -1503,6 +1503,34 @@ class NetconfCalculator(BaseCalculator):
                     return prefixes[ret.group(1)] + ':' + ret.group(2)
         return id
 
+    @staticmethod
+    def _get_predicate(id, text):
+        '''_get_predicate
+
+        Low-level api: Return a predicate that can be used in a key attribute.
+        The value is quoted by quotation marks that are not part of it, and a
+        node without text has an empty value.
+
+        Parameters
+        ----------
+
+        id : `str`
+            Identifier in `prefix:tagname` notation.
+
+        text : `str`
+            Text of the key node. It could be None.
+
+        Returns
+        -------
+
+        str
+            A predicate.
+        '''
+
+        value = text or ''
+        quote = '"' if "'" in value else "'"
+        return '[{0}={1}{2}{1}]'.format(id, quote, value)
+
     def _same_leaf_list(self, leaf_list_tag, parent_node_1, parent_node_2):
         '''_same_leaf_list
 
-- 
2.43.0


From 937dcd4ee105128505c8f20f124d95b3aa994a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:52 +0000
Subject: [PATCH 19/46] fix: remove capabilities.txt first when the folder of
 YANG files is cleaned up

A process that ended while the other files were being removed left a
capabilities.txt behind that still matched the device, so that the next
scan_models() took the remains for a complete download.
---
 src/ncdiff/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..920ff96 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -818,7 +818,10 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang, starting with the file which says
+        # that downloading is complete
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
-- 
2.43.0


From 3640d1389461425e05ba484d906a5b3207c02778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 20/46] fix: do not hang when a YANG file cannot be loaded

An exception in ContextWorker (a file that is not UTF-8, an import without
a prefix) ended the thread without task_done(), and load_context() waited
for ever.
---
 src/ncdiff/model.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 920ff96..3e18e2b 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -526,24 +526,31 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    self.load_module(modulefile, varnames)
+                except Exception:
+                    logger.exception('Got error while loading {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
+    def load_module(self, modulefile, varnames):
+        with open(modulefile, 'r', encoding='utf-8') as f:
+            text = f.read()
+        kwargs = {
+            'ref': modulefile,
+            'text': text,
+        }
+        if 'primary_module' in varnames:
+            kwargs['primary_module'] = True
+        if 'format' in varnames:
+            kwargs['format'] = 'yang'
+        if 'in_format' in varnames:
+            kwargs['in_format'] = 'yang'
+        module_statement = self.context.add_module(**kwargs)
+        if module_statement is not None:
+            self.context.update_dependencies(module_statement)
+
 
 class CompilerContext(Context):
 
-- 
2.43.0


From 6a1d89a0b25d301dffe1f7da295b31f8f06f5b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 21/46] fix: scan a folder without any YANG module

The dependencies were only created along with the first module, so that
writing them raised AssertionError when there was none.
---
 src/ncdiff/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 3e18e2b..fcf82d4 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -705,6 +705,7 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        self.dependencies = etree.Element('modules')
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
-- 
2.43.0


From 12b479bbc03ee9d0a5debfa40ba864d23b9f88eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 22/46] fix: get_xpath of instances with empty values or quotes

A key or leaf-list value with a double quote gave an invalid XPath, and an
empty value was written as "None".
---
 src/ncdiff/composer.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..6542443 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -18,6 +18,18 @@ def split_tag(tag, tag_type):
         return ('', tag)
 
 
+def quote(text):
+    '''Write a text as a string literal of XPath 1.0, which has no escapes.'''
+
+    text = text or ''
+    if '"' not in text:
+        return '"{}"'.format(text)
+    if "'" not in text:
+        return "'{}'".format(text)
+    parts = ['"{}"'.format(part) for part in text.split('"')]
+    return 'concat({})'.format(", '\"', ".join(parts))
+
+
 class Tag(object):
     '''Tag
 
@@ -204,7 +216,10 @@ class Composer(object):
                     if n.schema_node is not None:
                         if n.schema_node.get('type') == 'leaf-list' and \
                            not (index == len(nodes)-1 and not instance):
-                            ret += '[text()="{}"]'.format(node.text)
+                            if node.text:
+                                ret += '[text()={}]'.format(quote(node.text))
+                            else:
+                                ret += '[not(text())]'
                         elif (
                             n.schema_node.get('type') == 'list' and
                             not (index == len(nodes)-1 and not instance)
@@ -214,8 +229,8 @@ class Composer(object):
                                                              dst=type)[1]
                                 key_node = node.find(key)
                                 if key_node is not None:
-                                    ret += '[{}="{}"]'.format(id,
-                                                              key_node.text)
+                                    ret += '[{}={}]'.format(
+                                        id, quote(key_node.text))
             return ret
 
         nodes = list(reversed(list(self.node.iterancestors())))[1:] + \
-- 
2.43.0


From 877c0e99ecbf90b5654cf3ed646ef260394e8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:33 +0000
Subject: [PATCH 23/46] fix: list all identities derived from a base as values
 of an identityref

The first derived identity was dropped, an unprefixed base was looked up in
the compiled module instead of the module defining the identity, only the
first of several bases was considered, and compiling twice made duplicates.
---
 src/ncdiff/model.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index fcf82d4..ab95cba 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1106,12 +1106,8 @@ class ModelCompiler(object):
                 # prepare self.identity_deps
                 for idn in m_statement.i_identities.values():
                     curr_idn = m_statement.arg + ':' + idn.arg
-                    base_idn = idn.search_one("base")
-                    if base_idn is None:
-                        # identity does not have a base
-                        self.identity_deps.setdefault(curr_idn, [])
-                    else:
-                        # identity has a base
+                    self.identity_deps.setdefault(curr_idn, [])
+                    for base_idn in idn.search('base'):
                         base_idns = base_idn.arg.split(':')
                         if len(base_idns) > 1:
                             # base is located in another module
@@ -1119,11 +1115,10 @@ class ModelCompiler(object):
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        derived = self.identity_deps.setdefault(b_idn, [])
+                        if curr_idn not in derived:
+                            derived.append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
-- 
2.43.0


From f7b4985bf6471da20de0928e5d749645d9380fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 24/46] fix: mark changed containers, lists, choices etc. as
 modified in ModelDiff

Nodes other than leaves appeared without any mark when only their own
attributes differed, and a container replaced with a leaf lost its children.
---
 src/ncdiff/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index ab95cba..8383075 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1589,11 +1589,10 @@ class ModelDiff(object):
                 if ModelDiff.node_equal(peer, child):
                     continue
                 else:
-                    if child.attrib['type'] in ['leaf-list', 'leaf']:
-                        ModelDiff.copy_node(ret, child, 'modified')
-                    else:
-                        ret_child = ModelDiff.copy_node(ret, child, '')
-                        ModelDiff.compare_nodes(peer, child, ret_child)
+                    modified = dict(peer.attrib) != dict(child.attrib)
+                    ret_child = ModelDiff.copy_node(
+                        ret, child, 'modified' if modified else '')
+                    ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
             if peer is None:
-- 
2.43.0


From c8ef9c6c20eab77b0810e936b0f84d4534182377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:48 +0000
Subject: [PATCH 25/46] fix: show exactly the nodes in question in
 ModelDiff.added, deleted and modified

Empty containers were left out, and changes of one kind below an RPC or a
notification were shown for the other kinds too.
---
 src/ncdiff/model.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8383075..343aaad 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1813,16 +1813,11 @@ class ModelDiff(object):
         '''
 
         for child in list(parent):
-            diff = child.get('diff')
-            type = child.get('type')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
+            no_child = ModelDiff.trim(child, msg)
+            if child.get('diff') != msg:
+                if no_child:
                     parent.remove(child)
+                else:
+                    # only to show where its descendants are
+                    child.attrib.pop('diff', None)
         return len(list(parent)) == 0
-- 
2.43.0


From f028ff24e3c2713edfdbe220b0d4470c6e56d3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 26/46] fix: load compiled models from files that the compiler
 has written

Such a file has an XML declaration with an encoding, which cannot be parsed
as a string.
---
 src/ncdiff/manager.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 5d3dcca..30c35cb 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -309,10 +309,8 @@ class ModelDevice(manager.Manager):
             file_name, file_ext = os.path.splitext(model)
             if file_ext.lower() == '.xml':
                 logger.debug('Read model file {}'.format(model))
-                with open(model, 'r') as f:
-                    xml = f.read()
                 parser = etree.XMLParser(remove_blank_text=True)
-                tree = etree.XML(xml, parser)
+                tree = etree.parse(model, parser).getroot()
                 m = Model(tree)
             else:
                 raise ValueError("'{}' is not a file with extension 'xml'" \
-- 
2.43.0


From c65d6e3f525b931fb55a2c8b1e73454ad3b6ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 27/46] fix: find the modules listed by ietf-yang-library

The reply was searched with the URN of the capability instead of the
namespace of the module, so the list of models was always empty.
---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 30c35cb..13c690c 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -135,6 +135,7 @@ class ModelDevice(manager.Manager):
         NC_MONITORING = xml_.NETCONF_MONITORING_NS
         YANG_LIB = 'urn:ietf:params:netconf:capability:yang-library'
         YANG_LIB_1_0 = YANG_LIB + ':1.0'
+        YANG_LIB_NS = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
         NC_MONITORING_FILTER = """
             <filter xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" type="subtree">
               <netconf-state xmlns="urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring">
@@ -179,7 +180,7 @@ class ModelDevice(manager.Manager):
         # RFC7950 section 5.6.4
         if [c for c in self.server_capabilities
                 if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:
-            n = {'nc': nc_url, 'yanglib': YANG_LIB}
+            n = {'nc': nc_url, 'yanglib': YANG_LIB_NS}
             p = '/nc:rpc-reply/nc:data/yanglib:modules-state' \
                 '/yanglib:module/yanglib:name'
             try:
-- 
2.43.0


From a80c5c81a70e2d71b729a933a5db6672fa199a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 28/46] fix: accept underscores and dots in module names of
 capabilities

YANG identifiers may contain them; the names were cut off.
---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 13c690c..b9aaced 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -203,7 +203,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From 26e9aed51eecf8ca4af36a07d57fdfc3f8db6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 29/46] fix: build the list of namespaces again when models are
 scanned again

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index b9aaced..e1a73eb 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -273,6 +273,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From f8def3cf1938aa29171e9977cb97bef8a9480c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 30/46] fix: do not ask for notifications when getting data of
 models

Notifications are read-only roots of a model, but no data nodes.
---
 src/ncdiff/manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index e1a73eb..d9d067f 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -383,6 +383,8 @@ class ModelDevice(manager.Manager):
         def get_access_type(model_name, root):
             check_models([model_name])
             node = list(self.models[model_name].tree.iterchildren(tag=root))[0]
+            if node.get('type') == 'notification':
+                return None
             return node.get('access')
 
         # allow for operation string type
-- 
2.43.0


From 1d91657ab4df7b8fcbae4f40aa6f87a757d48f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:47 +0000
Subject: [PATCH 31/46] fix: edit_config with config as keyword or target as
 positional argument

A Config instance was only converted when it was a positional argument, and
a positional target was in conflict with the chosen one.
---
 src/ncdiff/manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index d9d067f..ea9274d 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -428,7 +428,9 @@ class ModelDevice(manager.Manager):
                 args_list = list(args)
                 args_list[0] = args[0].ele
                 args = tuple(args_list)
-            if 'target' not in kwargs and \
+            if isinstance(kwargs.get('config'), Config):
+                kwargs['config'] = kwargs['config'].ele
+            if 'target' not in kwargs and len(args) < 3 and \
                'urn:ietf:params:netconf:capability:candidate:1.0' not in \
                self.server_capabilities and \
                'urn:ietf:params:netconf:capability:writable-running:1.0' in \
-- 
2.43.0


From 84381a2abad46ef171aa9ff1fdc15c33e8330694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:14 +0000
Subject: [PATCH 32/46] fix: get_statement of config nodes within list entries
 or choices

Statements are found by the path of the schema node, which has neither key
values nor leaves out choices and cases.
---
 src/ncdiff/manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index ea9274d..9216592 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -744,7 +744,8 @@ class ModelDevice(manager.Manager):
             return None
         return self.compiler.context.get_statement(
             modulename=self.get_model_name(node),
-            xpath=self.get_xpath(node, type=Tag.LXML_XPATH, instance=False),
+            xpath=self.get_xpath(Composer(self, node).schema_node,
+                                 type=Tag.LXML_XPATH, instance=False),
         )
 
     def default_in_use(self, schema_node):
-- 
2.43.0


From a0276f75fecfac698eebc21a47e6f1a9ac49aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 33/46] fix: edit-config with parameters in the order of RFC
 6241, a url, or a device handler that patches it

---
 src/ncdiff/__init__.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..877b8c1 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -132,16 +132,16 @@ def request(self, config, format='xml', target='candidate',
     node = new_ele("edit-config")
     # node.append(util.datastore_or_url("target", target, self._assert))
     node.append(operations.util.datastore_or_url("target", target, self._assert))
+    if default_operation is not None:
+        # TODO: check if it is a valid default-operation
+        sub_ele(node, "default-operation").text = default_operation
+    if test_option is not None:
+        self._assert(':validate')
+        sub_ele(node, "test-option").text = test_option
     if error_option is not None:
         if error_option == "rollback-on-error":
             self._assert(":rollback-on-error")
         sub_ele(node, "error-option").text = error_option
-    if test_option is not None:
-        self._assert(':validate')
-        sub_ele(node, "test-option").text = test_option
-    if default_operation is not None:
-        # TODO: check if it is a valid default-operation
-        sub_ele(node, "default-operation").text = default_operation
 # <<<<<<< HEAD
 #         node.append(validated_element(config, ("config", qualify("config"))))
 # =======
@@ -152,6 +152,13 @@ def request(self, config, format='xml', target='candidate',
         config_text = sub_ele(node, "config-text")
         sub_ele(config_text, "configuration-text").text = config
 # >>>>>>> juniper
+    if format == 'url':
+        if not operations.util.url_validator(config):
+            raise operations.OperationError("Invalid URL.")
+        self._assert(':url')
+        sub_ele(node, "url").text = config
+    if hasattr(self._device_handler, 'transform_edit_config'):
+        node = self._device_handler.transform_edit_config(node)
     return self._request(node)
 
 
-- 
2.43.0


From ac335791f4898455b9881b5bd964d258e2415dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 34/46] fix: send requests that contain comments

---
 src/ncdiff/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 877b8c1..a92ea67 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -12,6 +12,7 @@ __copyright__ = 'Cisco Systems, Inc.'
 
 import os
 import pprint
+from copy import deepcopy
 from lxml import etree
 from ncclient import operations, transport
 from pyang import error, yang_parser, statements
@@ -99,6 +100,10 @@ if getattr(transport, 'notify', None):
 def _append(self, element):
     def recreate(parent_src, parent_dst):
         for child_src in parent_src:
+            if not isinstance(child_src.tag, str):
+                # comments and processing instructions
+                parent_dst.append(deepcopy(child_src))
+                continue
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
-- 
2.43.0


From 6792f94d5073007613c485e1fa5b018034846e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 35/46] fix: trim leaves whose default value is an empty string

---
 src/ncdiff/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 75b015f..cd951f6 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -404,7 +404,7 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
-                child.text == child_schema_node.get('default')
+                (child.text or '') == child_schema_node.get('default')
             ):
                 node.remove(child)
 
@@ -418,7 +418,7 @@ class Config(object):
                 child.tag not in leaf_list_defaults
             ):
                 defaults = child_schema_node.get('default').split(',')
-                values = [n.text for n in node.findall(child.tag)]
+                values = [n.text or '' for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
-- 
2.43.0


From 3d9f8b51226e68f881b43ff090f767421f7b888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:01 +0000
Subject: [PATCH 36/46] fix: refer to user-ordered nodes with identityref
 values by meaning in key and value attributes

---
 src/ncdiff/netconf.py | 172 +++++++++++++++++++++++++++++++++---------
 1 file changed, 137 insertions(+), 35 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index cd007bf..5c15e31 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -5,7 +5,8 @@ from lxml import etree
 from copy import deepcopy
 from ncclient import operations, xml_
 
-from .errors import ConfigDeltaError, ModelError
+from .ref import IdentityRef, InstanceIdentifier
+from .errors import ConfigError, ConfigDeltaError, ModelError
 from .calculator import BaseCalculator
 
 # create a logger for this module
@@ -441,17 +442,13 @@ class NetconfCalculator(BaseCalculator):
                     item.set(insert_tag, 'after')
                     precursor = sequence[i - 1]
                     if ordered_by_user[tag] == 'leaf-list':
-                        item.set(value_tag, precursor.text or '')
+                        item.set(value_tag, self._get_value(precursor, item))
                     else:
-                        keys = ordered_by_user[tag]
-                        key_nodes = {k: precursor.find(k) for k in keys}
-                        ids = {
-                            k: self._url_to_prefix(n, k)
-                            for k, n in key_nodes.items()
-                        }
                         id_list = [
-                            self._get_predicate(ids[k], key_nodes[k].text)
-                            for k in keys
+                            self._get_predicate(
+                                self._url_to_prefix(item, k),
+                                self._get_value(precursor.find(k), item))
+                            for k in ordered_by_user[tag]
                         ]
                         item.set(key_tag, ''.join(id_list))
 
@@ -722,7 +719,8 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if (s.text or '') == child_other.get(value_tag)]
+                           if self._has_value(s, child_other.get(value_tag),
+                                              child_other)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -734,7 +732,8 @@ class NetconfCalculator(BaseCalculator):
                                  'value')
                 siblings = node_sum.findall(child_other.tag)
                 sibling = [s for s in siblings
-                           if (s.text or '') == child_other.get(value_tag)]
+                           if self._has_value(s, child_other.get(value_tag),
+                                              child_other)]
                 if not sibling:
                     path = self.device.get_xpath(child_other)
                     value = child_other.get(value_tag)
@@ -836,9 +835,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -848,9 +845,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = node_sum.find(child_other.tag +
-                                        child_other.get(key_tag),
-                                        namespaces=child_other.nsmap)
+                sibling = self._find_by_key(node_sum, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -968,7 +963,8 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if (s.text or '') == child_other.get(value_tag)]
+                               if self._has_value(s, child_other.get(value_tag),
+                                                  child_other)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -982,7 +978,8 @@ class NetconfCalculator(BaseCalculator):
                                      'value')
                     siblings = parent_self.findall(child_other.tag)
                     sibling = [s for s in siblings
-                               if (s.text or '') == child_other.get(value_tag)]
+                               if self._has_value(s, child_other.get(value_tag),
+                                                  child_other)]
                     if not sibling:
                         path = self.device.get_xpath(child_other)
                         value = child_other.get(value_tag)
@@ -1099,9 +1096,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('before', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1112,9 +1107,7 @@ class NetconfCalculator(BaseCalculator):
                 if child_other.get(key_tag) is None:
                     _inserterror('after', self.device.get_xpath(child_other),
                                  'key')
-                sibling = parent_self.find(child_other.tag +
-                                           child_other.get(key_tag),
-                                           namespaces=child_other.nsmap)
+                sibling = self._find_by_key(parent_self, child_other)
                 if sibling is None:
                     path = self.device.get_xpath(child_other)
                     key = child_other.get(key_tag)
@@ -1365,17 +1358,13 @@ class NetconfCalculator(BaseCalculator):
                         item.set(insert_tag, 'after')
                         precursor = sequence[i - 1]
                         if ordered_by_user[tag] == 'leaf-list':
-                            item.set(value_tag, precursor.text or '')
+                            item.set(value_tag, self._get_value(precursor, item))
                         else:
-                            keys = ordered_by_user[tag]
-                            key_nodes = {k: precursor.find(k) for k in keys}
-                            ids = {
-                                k: self._url_to_prefix(n, k)
-                                for k, n in key_nodes.items()
-                            }
                             id_list = [
-                                self._get_predicate(ids[k], key_nodes[k].text)
-                                for k in keys
+                                self._get_predicate(
+                                    self._url_to_prefix(item, k),
+                                    self._get_value(precursor.find(k), item))
+                                for k in ordered_by_user[tag]
                             ]
                             item.set(key_tag, ''.join(id_list))
 
@@ -1468,6 +1457,119 @@ class NetconfCalculator(BaseCalculator):
             else:
                 child.set(operation_tag, 'delete')
 
+    def _get_value(self, node, to_node):
+        '''_get_value
+
+        Low-level api: Get value of a node as it is written in an attribute of
+        another node. The two nodes might not have the same namespace mapping.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A leaf or leaf-list node in a config tree.
+
+        to_node : `Element`
+            A config node that has the attribute.
+
+        Returns
+        -------
+
+        str
+            Value of the node.
+        '''
+
+        if node.text is None:
+            return ''
+        datatype = self.device.get_schema_node(node).get('datatype') or ''
+        if datatype[:11] == 'identityref':
+            ref = IdentityRef(self.device, node, to_node=to_node)
+        elif datatype == 'instance-identifier':
+            ref = InstanceIdentifier(self.device, node, to_node=to_node)
+        else:
+            return node.text
+        for url in ref.default_ns.values():
+            # An attribute is set and deleted, in order to have a prefix of the
+            # namespace declared.
+            ns_tag = '{{{}}}ns'.format(url)
+            to_node.set(ns_tag, '')
+            to_node.attrib.pop(ns_tag)
+        return ref.converted
+
+    def _has_value(self, node, value, value_node):
+        '''_has_value
+
+        Low-level api: Check if a node has a value that is written in an
+        attribute of another node.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A leaf or leaf-list node in a config tree.
+
+        value : `str`
+            A value in an attribute of value_node.
+
+        value_node : `Element`
+            A config node that has the attribute.
+
+        Returns
+        -------
+
+        bool
+            True if the node has the value, otherwise False.
+        '''
+
+        e = etree.Element(node.tag, nsmap=value_node.nsmap)
+        e.text = value or None
+        s_node = self.device.get_schema_node(node)
+        try:
+            value = self._parse_text(e, s_node)
+        except ConfigError:
+            return False
+        return (self._parse_text(node, s_node) or '') == (value or '')
+
+    def _find_by_key(self, parent, child_other):
+        '''_find_by_key
+
+        Low-level api: Find the list entry which is referred to by attribute
+        key of child_other.
+
+        Parameters
+        ----------
+
+        parent : `Element`
+            A config node whose children are searched.
+
+        child_other : `Element`
+            A list entry that has attribute key.
+
+        Returns
+        -------
+
+        Element
+            A list entry under parent. None if there is no such entry.
+        '''
+
+        predicate = r'''\[\s*(?:([^\s:=]+):)?([^\s:=]+)\s*=\s*("[^"]*"|'[^']*')\s*\]'''
+        key = child_other.get(key_tag)
+        if re.sub(predicate, '', key).strip() or not key.strip():
+            return None
+        values = {}
+        for prefix, name, value in re.findall(predicate, key):
+            url = child_other.nsmap.get(prefix or None)
+            values['{{{}}}{}'.format(url, name)] = value[1:-1]
+        for sibling in parent.iterchildren(tag=child_other.tag):
+            nodes = {tag: sibling.find(tag) for tag in values}
+            if all(
+                nodes[tag] is not None and
+                self._has_value(nodes[tag], values[tag], child_other)
+                for tag in values
+            ):
+                return sibling
+        return None
+
     @staticmethod
     def _url_to_prefix(node, id):
         '''_url_to_prefix
-- 
2.43.0


From 9de7c6c7052b951e2c0ee166cf2955f609b7ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:05 +0000
Subject: [PATCH 37/46] fix: no payload between equal configs that have
 user-ordered nodes at the root

---
 src/ncdiff/netconf.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5c15e31..5b5e203 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -211,6 +211,12 @@ class NetconfCalculator(BaseCalculator):
     def sub(self):
         ele1 = deepcopy(self.etree1)
         ele2 = deepcopy(self.etree2)
+        if self.eq:
+            # No need to send user-ordered nodes at the root when nothing
+            # changes
+            for child in ele1.getchildren():
+                ele1.remove(child)
+            return ele1
         if self.diff_type == 'replace' and self.replace_depth == 0:
             self.get_config_replace(ele1, ele2)
         else:
-- 
2.43.0


From 5995423f1a88bef1320578c45fd1eb4488fcceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 38/46] fix: keep instance-identifier literals that contain
 apostrophes

---
 src/ncdiff/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index f992b0e..a62368d 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -300,7 +300,9 @@ class InstanceIdentifier(IdentityRef):
     @staticmethod
     def convert_literal(literal):
         converted_literal = literal[1:-1]
-        converted_literal = re.sub("'", "''", converted_literal)
+        if "'" in converted_literal:
+            # there is no way to escape an apostrophe between apostrophes
+            return literal
         return "'" + re.sub('""', '"', converted_literal) + "'"
 
     def parse_quote(self):
-- 
2.43.0


From 8ad12005c9143ee30df538986a7404f737da5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 39/46] fix: no namespace prefix before positions in
 instance-identifiers

---
 src/ncdiff/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index a62368d..db88b2a 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -236,7 +236,8 @@ class InstanceIdentifier(IdentityRef):
                 if piece[0] == '[' or \
                    piece[0] == ']' or \
                    piece[0] == '=' or \
-                   piece[0] == '.':
+                   piece[0] == '.' or \
+                   piece[0].isdigit():
                     new_str_list.append((piece[0], piece[1], piece[0]))
                 else:
                     url, id = self.parse_prefixed_id(piece[0], self.node)
-- 
2.43.0


From 6291071dd0923b3a7e4ed379f5f06d269e38ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 40/46] fix: accept dots in node names of instance-identifiers

---
 src/ncdiff/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/ref.py b/src/ncdiff/ref.py
index db88b2a..d21a7b4 100755
--- a/src/ncdiff/ref.py
+++ b/src/ncdiff/ref.py
@@ -378,7 +378,7 @@ class InstanceIdentifier(IdentityRef):
                               .format(self.node))
 
     def parse_element(self, to_node=None):
-        SEPARATORS = "./"
+        SEPARATORS = "/"
         string = self.string(3)
         start_idx = None
         for idx, char in enumerate(string):
-- 
2.43.0


From 567c3eace71d9578be57fbbd8cc02dd1b2209f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 41/46] fix: refuse to add anything but a config to a delta

---
 src/ncdiff/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index cd951f6..37d2ed5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -788,6 +788,8 @@ class ConfigDelta(object):
     def __add__(self, other):
         if isinstance(other, Config):
             return other + self.nc
+        else:
+            return NotImplemented
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From b7cbf425c6cf3b6e586140743e25f7cd1c913948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:43 +0000
Subject: [PATCH 42/46] fix: raise ConfigError for root list entries that lack
 a key

---
 src/ncdiff/calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index ecc804a..813c675 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -142,11 +142,11 @@ class BaseCalculator(object):
             """ Find exactly one child with the given tag"""
             s = list(node.iterchildren(tag=tag))
             if len(s) < 1:
-                raise ConfigError("cannot find key '{}' in node {} under {}" \
+                raise ConfigError("cannot find key '{}' in node {}" \
                                   .format(tag,
-                                          node.tag,
                                           self.device \
-                                              .get_xpath(node.getparent())))
+                                              .get_xpath(node,
+                                                         instance=False)))
             if len(s) > 1:
                 raise ConfigError("not unique key '{}' in node {}" \
                                   .format(tag,
-- 
2.43.0


From 84adf1f37233f85848fa8baf3b9ca2747138e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:05 +0000
Subject: [PATCH 43/46] fix: compare identityref and instance-identifier values
 behind typedefs and leafrefs by meaning

---
 src/ncdiff/calculator.py | 38 ++++++++++++++++++++++++++++++--------
 src/ncdiff/model.py      | 26 ++++++++++++++++++++++++++
 src/ncdiff/netconf.py    |  9 +++++----
 3 files changed, 61 insertions(+), 12 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 813c675..445705e 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -400,12 +400,11 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        basetype = self._get_basetype(schema_node)
+        if basetype == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif basetype == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -414,6 +413,30 @@ class BaseCalculator(object):
                 return None
             return node.text
 
+    @staticmethod
+    def _get_basetype(schema_node):
+        '''_get_basetype
+
+        Low-level api: Get the built-in type of a leaf or leaf-list if it is
+        identityref or instance-identifier, possibly behind typedefs and
+        leafrefs.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node.
+
+        Returns
+        -------
+
+        str
+            The built-in type, or the datatype of the schema node.
+        '''
+
+        return schema_node.get('basetype') or \
+            (schema_node.get('datatype') or '').split(':')[0]
+
     def _same_text(self, node1, node2):
         '''_same_text
 
@@ -465,13 +488,12 @@ class BaseCalculator(object):
             to_node.text = None
             return
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
+        basetype = self._get_basetype(schema_node)
+        if basetype == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
             to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif basetype == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
             to_node.text = instanceid.converted
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 343aaad..2809e71 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1268,6 +1268,12 @@ class ModelCompiler(object):
             else:
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
+            base = self.base_type(leaf_statement)
+            if (
+                base is not sm and
+                base.arg in ['identityref', 'instance-identifier']
+            ):
+                leaf_node.set('basetype', base.arg)
 
             type_values = self.type_values(sm)
             if type_values:
@@ -1278,6 +1284,26 @@ class ModelCompiler(object):
                     '|'.join([m.arg for m in sm.search('type')])
                 )
 
+    @staticmethod
+    def base_type(leaf_statement):
+        # The type that is found behind typedefs and leafrefs
+        leaf_statements = [leaf_statement]
+        type_statement = leaf_statement.search_one('type')
+        while True:
+            typedef = getattr(type_statement, 'i_typedef', None)
+            leafref = getattr(leaf_statements[-1], 'i_leafref_ptr', None)
+            if typedef is not None:
+                type_statement = typedef.search_one('type')
+            elif (
+                type_statement.arg == 'leafref' and
+                leafref is not None and
+                leafref[0] not in leaf_statements
+            ):
+                leaf_statements.append(leafref[0])
+                type_statement = leafref[0].search_one('type')
+            else:
+                return type_statement
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 5b5e203..306172c 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -1487,10 +1487,10 @@ class NetconfCalculator(BaseCalculator):
 
         if node.text is None:
             return ''
-        datatype = self.device.get_schema_node(node).get('datatype') or ''
-        if datatype[:11] == 'identityref':
+        basetype = self._get_basetype(self.device.get_schema_node(node))
+        if basetype == 'identityref':
             ref = IdentityRef(self.device, node, to_node=to_node)
-        elif datatype == 'instance-identifier':
+        elif basetype == 'instance-identifier':
             ref = InstanceIdentifier(self.device, node, to_node=to_node)
         else:
             return node.text
@@ -1533,7 +1533,8 @@ class NetconfCalculator(BaseCalculator):
         try:
             value = self._parse_text(e, s_node)
         except ConfigError:
-            return False
+            # There is an unknown prefix, so the value is taken literally.
+            return (node.text or '') == value
         return (self._parse_text(node, s_node) or '') == (value or '')
 
     def _find_by_key(self, parent, child_other):
-- 
2.43.0


From 8b9e7b93c2865c2ae535fcd259ddfb3a2b9278e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:11 +0000
Subject: [PATCH 44/46] fix: keys of a list may be separated by any white space

---
 src/ncdiff/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 2809e71..c0f8013 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1150,7 +1150,7 @@ class ModelCompiler(object):
         if child.keyword == 'list':
             sm = child.search_one('key')
             if sm is not None:
-                n.set('key', sm.arg)
+                n.set('key', ' '.join(sm.arg.split()))
             sm = child.search_one('ordered-by')
             if sm is not None and sm.arg == 'user':
                 n.set('ordered-by', 'user')
-- 
2.43.0


From d6aad8233a429d352331b7c7b44ac81ea2334bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 45/46] fix: describe actions like RPCs in compiled models

---
 src/ncdiff/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c0f8013..bfab812 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1211,6 +1211,9 @@ class ModelCompiler(object):
         if featurenames:
             n.set('if-feature', ' '.join(featurenames))
 
+        if child.keyword == 'action':
+            mode = 'rpc'
+
         if hasattr(child, 'i_children'):
             for c in child.i_children:
                 if mode == 'rpc' and c.keyword in ['input', 'output']:
@@ -1222,7 +1225,7 @@ class ModelCompiler(object):
     def set_access(statement, node, mode):
         if (
             mode in ['input', 'rpc'] or
-            statement.keyword == 'rpc' or
+            statement.keyword in ['rpc', 'action'] or
             statement.keyword == ('tailf-common', 'action')
         ):
             node.set('access', 'write')
-- 
2.43.0


From 6c39f5ee89c285f9393dbf2f72cdb1540fa1ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:05 +0000
Subject: [PATCH 46/46] fix: trim default identities by meaning

---
 src/ncdiff/config.py | 62 +++++++++++++++++++++++++++++++++++++++++---
 src/ncdiff/model.py  | 23 ++++++++++++++++
 2 files changed, 82 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 37d2ed5..eaff0f5 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -9,6 +9,7 @@ from ncclient import operations, xml_
 from .model import ModelDiff
 from .errors import ConfigError, ModelMissing, ModelIncompatible
 from .netconf import NetconfParser, NetconfCalculator
+from .ref import IdentityRef
 from .composer import Composer
 from .calculator import BaseCalculator
 
@@ -404,7 +405,8 @@ class Config(object):
                 child_schema_node.get('type') == 'leaf' and
                 child_schema_node.get('is_key') is None and
                 child_schema_node.get('default') is not None and
-                (child.text or '') == child_schema_node.get('default')
+                self._get_value(child, child_schema_node) == \
+                self._get_default(child_schema_node)
             ):
                 node.remove(child)
 
@@ -417,8 +419,9 @@ class Config(object):
                 child_schema_node.get('default') is not None and
                 child.tag not in leaf_list_defaults
             ):
-                defaults = child_schema_node.get('default').split(',')
-                values = [n.text or '' for n in node.findall(child.tag)]
+                defaults = self._get_default(child_schema_node).split(',')
+                values = [self._get_value(n, child_schema_node)
+                          for n in node.findall(child.tag)]
                 if (
                     child_schema_node.get('ordered-by', 'system') == 'user' and
                     values == defaults or
@@ -435,6 +438,59 @@ class Config(object):
                 for child in node.findall(tag):
                     node.remove(child)
 
+    @staticmethod
+    def _get_default(schema_node):
+        '''_get_default
+
+        Low-level api: Get the default value of a leaf, or the default values
+        of a leaf-list. Identities are in the format of RFC7951 section 6.8.
+
+        Parameters
+        ----------
+
+        schema_node : `Element`
+            A schema node that has a default.
+
+        Returns
+        -------
+
+        str
+            The default value or values.
+        '''
+
+        return schema_node.get('basedefault') or schema_node.get('default')
+
+    def _get_value(self, node, schema_node):
+        '''_get_value
+
+        Low-level api: Get the value of a leaf or leaf-list, which can be
+        compared with the default value. Identities are in the format of
+        RFC7951 section 6.8.
+
+        Parameters
+        ----------
+
+        node : `Element`
+            A config node.
+
+        schema_node : `Element`
+            The schema node of the config node.
+
+        Returns
+        -------
+
+        str
+            Value of the node.
+        '''
+
+        if schema_node.get('basedefault') and node.text:
+            try:
+                return IdentityRef(self.device, node).default
+            except (ConfigError, ValueError):
+                # unknown prefix or namespace
+                return node.text
+        return node.text or ''
+
     def _validate_node(self, node):
         '''_validate_node
 
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index bfab812..aef8079 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1277,6 +1277,13 @@ class ModelCompiler(object):
                 base.arg in ['identityref', 'instance-identifier']
             ):
                 leaf_node.set('basetype', base.arg)
+            defaults = leaf_statement.search('default')
+            if base.arg == 'identityref' and defaults:
+                leaf_node.set(
+                    'basedefault',
+                    ','.join([self.identity_default(leaf_statement, d)
+                              for d in defaults])
+                )
 
             type_values = self.type_values(sm)
             if type_values:
@@ -1307,6 +1314,22 @@ class ModelCompiler(object):
             else:
                 return type_statement
 
+    @staticmethod
+    def identity_default(leaf_statement, default_statement):
+        # Prefix of a default identity is the one of the module where the
+        # default statement is. The identity is returned as per RFC7951
+        # section 6.8.
+        module = getattr(default_statement, 'i_orig_module',
+                         default_statement.i_module)
+        prefix, colon, name = default_statement.arg.rpartition(':')
+        if prefix in module.i_prefixes and prefix != module.i_prefix:
+            module_name = module.i_prefixes[prefix][0]
+        else:
+            module_name = module.i_modulename
+        if module_name == leaf_statement.i_module.i_modulename:
+            return name
+        return '{}:{}'.format(module_name, name)
+
     def type_values(self, type_statement):
         if type_statement is None:
             return ''
-- 
2.43.0

