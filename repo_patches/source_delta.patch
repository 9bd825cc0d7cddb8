From 61147ef3af11a6f5cf41eaf15ba9b5242a38ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 01/32] fix: compare numeric port range bounds as numbers

The bounds are strings, so 'range 80 443' or 'range 9 10' was rejected and
'range 100 20' accepted.
---
 lib/acltk/aclObjects.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..21f21b8 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,9 +902,8 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            # numeric ports are strings, "80" < "443" is False
+            assert int(start) < int(stop), "last Port must be greater than first"
         except ValueError:
             pass
         self.start = start
-- 
2.43.0


From 32d90dae29f0389d02ce738598f1917497dcfd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 02/32] fix: keep parsed network/service objects and their NAT
 in the config

The object rule is 'object' WS object_type, ast[1] is the white space:
objects.network, objects.service and the object NAT section stayed empty.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..8650f57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 49404c0a984e363c82b28030ad74f54f19df142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 03/32] fix: keep the port of 'port-object eq'

The grammar did not name the element, every such member became 'eq None'.
---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From 2779151ba73660d00f7c6115d3ea6e9886dced21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 04/32] fix: keep the mapped port of an object NAT port
 translation

'service tcp REAL MAPPED' gave the real port on both sides, the mapped port
was lost.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8650f57..a3c2fc2 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -458,8 +458,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -467,7 +467,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From dffee6c56462fa6a85d78bccfe0b7bd1d7410d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 05/32] fix: tie object NAT to the object's own definition

ASA writes 'object network X' twice, with the address and with the NAT. The
NAT's real address was the second, empty one, so no address filter matched it.
---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index a3c2fc2..557ee81 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,8 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            # a later 'object network' with just the NAT refers to the object defined first
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From 11709b32670fe39155426692681b9bcd171e6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 06/32] fix: compare wildcard addresses by version and with
 each other

IPv6 filter addresses whose value is small (::1) matched IPv4 wildcards, and
two wildcards recursed without end.
---
 lib/acltk/aclObjects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 21f21b8..38876e0 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -474,11 +474,17 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if self.address.version != other.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
         elif isinstance(other, Network):
+            if self.address.version != other.network.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            return (int(self.address) ^ int(other.address)) & ~int(self.wildcard) & ~int(other.wildcard) == 0
         else:
             return other & self
 
-- 
2.43.0


From 477938c1a45693cc46f25bc42fe5932a7e8fa0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 07/32] fix: read IOS access list wildcards as wildcards

'0.0.0.0', '255.255.255.255' and left aligned masks such as '255.0.0.0' were
read as netmasks (0.0.0.0 became /0), numbered extended lists rejected
discontiguous wildcards.
---
 lib/acltk/iosSemantics.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..6ca9569 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,24 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    @staticmethod
+    def _wildcard(address, wildcard) -> Union[Network, NetworkWildcard]:
+        # ipaddress reads 0.0.0.0, 255.255.255.255 and 255.0.0.0 as netmasks, here they are wildcards
+        wild = int(ipaddress.IPv4Address(wildcard))
+        if wild & (wild + 1) == 0:
+            return Network(address, 32 - wild.bit_length())
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # numbered extended access lists
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask)
+        return super().acl_host(ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From 4810f3db74accfb2b7fc910358804e74a6c45fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 08/32] fix: end a CAF comment at its first '*/'

A comment closed by '**/' went on up to the next '*/', the filter terms in
between were dropped without a word.
---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..8993fd8 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|\*(?!\/))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..7a354bf 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|\\*(?!\\/))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From f40cbb5aa7f0eea5804db4ab649c781e86d574be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 09/32] fix: resolve rules of access lists bound to an
 interface

access_groups holds a list per access list, adding the list to the set raised
TypeError: unhashable type.
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 38876e0..7a71270 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1312,7 +1312,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 68512c4458fbdc0156b591d7178a3b857ab079a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 10/32] fix: PortUtil.getservbyname with a protocol

str has no toupper().
---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 7a71270..f1ca22b 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -856,7 +856,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From aaed54e799e26ea2c9983bf1ba35185818cc2037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/32] fix: pfSense interfaces with a static address

Interface expects the grammars' shape with the white space in between, a
static ipaddr raised IndexError.
---
 lib/acltk/pfsenseSemantics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..9bcbb3d 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,10 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        # shaped like the grammars' "ip" WS "address" WS ip4 WS ip4
+                        tatsu.ast.AST(
+                            **{"type": ["ip", " ", "address"], "value": [values["ipaddr"], " ", values["subnet"]]}
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 96666125a6ed1571450d4e86100413107dbaac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 12/32] fix: pfSense rules whose source or destination is an
 optX network

Interfaces are registered by their alias, looking up opt1 raised ValueError.
---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 9bcbb3d..9597e0c 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -290,7 +290,8 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        # interfaces are known by alias, rules use the optX name
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From ec3fbbb60eff2dcba4527651cd70cd448d28986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 13/32] fix: NetworkGroup.collapse of hosts, objects, IPv6 and
 copies

Hosts were refused in place, objects raised KeyError, IPv6 networks and IPv4
next to IPv6 raised, and insitu=False changed the group itself when it held
networks only.
---
 lib/acltk/aclObjects.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index f1ca22b..2a44e55 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -615,12 +615,15 @@ class NetworkGroup(_Group):
         :return: collapsed NetworkGroup
         """
         # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
+        if any(isinstance(o, (NetworkGroup, NetworkObject)) for o in self.objects):
             if insitu:
                 raise ValueError("expansion required")
             obj = self.expand(insitu)
-        else:
+        elif insitu:
             obj = self
+        else:
+            obj = self.__class__(self.name, self.description)
+            obj.objects = list(self.objects)
         return obj._collapse()
 
     def _collapse(self):
@@ -637,11 +640,14 @@ class NetworkGroup(_Group):
 
         self.objects.clear()
 
-        for h in ipaddress.collapse_addresses(addresses):
+        # collapse_addresses does not take both versions at once
+        for h in itertools.chain.from_iterable(
+            ipaddress.collapse_addresses([a for a in addresses if a.version == version]) for version in (4, 6)
+        ):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From 34eccdab44ec45becd5a9296b877258ae89feaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 14/32] fix: sort(insitu=False) of protocol, service and
 network groups

Protocol and service groups have no collapse() (AttributeError), the sorted
copy of a network group took the members before they were expanded.
---
 lib/acltk/aclObjects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 2a44e55..bd6c662 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,9 +312,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -674,7 +674,7 @@ class NetworkGroup(_Group):
         else:
             obj = self.collapse(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
@@ -745,9 +745,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From 8c93c32726696a47d48bde592995d2ced96f1c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 15/32] fix: pfSense separators and interfaces with an empty
 text

---
 lib/acltk/pfsenseSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 9597e0c..b5295bf 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -102,10 +102,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
@@ -212,7 +212,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"] or ""))
                         )
 
                 ifname = None
-- 
2.43.0


From 710e6ede1db750ef99f4accca89a54b35056f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 16/32] fix: extended and webtype rules with a trailing space

---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 557ee81..2a77d24 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -359,6 +359,8 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            if i is None:
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From 75323c878651963866ba6efa25f6b39eafa21866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 17/32] fix: an IOS DHCP pool ends with its indented lines

Without a '!' after it the pool swallowed all that followed, access lists
included, and a parenthesis in it could not be read.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..14ea7db 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..2688d35 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4491,11 +4491,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 7d25c047231a3934a29faf56a30a79286fa6d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 18/32] fix: an IOS banner may have a ^ right before its
 closing ^C

---
 lib/acltk/iosSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 6ca9569..6b6f6bc 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -256,8 +256,8 @@ class iosParser(aclParser, _iosParser):
     @tatsumasu()
     def _delim_msg_(self):
         if self.delim == "^C":
-            # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            # not ^ or ^ not followed by C, which may follow another ^
+            self._pattern(r"([^^]|\^(?!C))*")
         else:
             p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
             self._pattern(p)
-- 
2.43.0


From 3bdb8e951fd312d34e2ac69eb696f742d2e4fb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 19/32] fix: a dynamic NAT's service objects are mapped first,
 real second

Only the destination port of a dynamic twice NAT can be translated; its objects
come in the order mapped, real like those of a static one.
---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..64ce015 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -113,8 +113,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # Dynamic NAT translates destination ports only, the order is service mapped_obj real_obj.
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From 432d60320000701fbda290ec5c1e4eea05a5bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 20/32] fix: list the interfaces a selected rule or NAT entry
 refers to

The filtered report linked to interfaces it did not list.
---
 lib/acltk/aclObjects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index bd6c662..1c3113b 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1357,6 +1357,12 @@ class ACLConfig:
                     r.add(i.iface)
                     r.add("Interface")
                     break
+                elif isinstance(i, NetworkInterface):
+                    for iface in self.interfaces.values():
+                        if i.name in (iface.alias, iface.nameif):
+                            r.add(iface)
+                            r.add("Interface")
+                    break
                 elif isinstance(i, NATObject):
                     r.add("NAT")
             else:
-- 
2.43.0


From 0806bd95ca066a5ccca26b1211f81620f0ad34f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 21/32] fix: equal ports have equal hashes

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 1c3113b..5a6047b 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -908,7 +908,7 @@ class Port:
         return (self.op or "", self.num) < c
 
     def __hash__(self):
-        return id(self)
+        return hash((self.op or "", self.num))
 
 
 class PortRange:
-- 
2.43.0


From b15d13af424d30dd75796d1ff661a42ae3175053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:09 +0000
Subject: [PATCH 22/32] fix: acl-filter example names the rule's ends src and
 dst

---
 examples/acl-filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/acl-filter.py b/examples/acl-filter.py
index f9c7e5f..0b77aaf 100644
--- a/examples/acl-filter.py
+++ b/examples/acl-filter.py
@@ -20,8 +20,8 @@ def main():
     print(f"anyany {len(anyany)}")
 
     target = [
-        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.2.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.2.0.0", netmask="24"))),
     ]
     base = config.rules.filter(target)
     print(f"base {len(base)}")
@@ -30,8 +30,8 @@ def main():
     print(f"union {len(u)}")
 
     target = [
-        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.1.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.1.0.0", netmask="24"))),
     ]
 
     rules = config.rules.filter(target)
-- 
2.43.0


From 0f829c3cdf045905ef15c189f30b4dfe0eb9f6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:59 +0000
Subject: [PATCH 23/32] Revert "fix: acl-filter example names the rule's ends
 src and dst"

This reverts commit b15d13af424d30dd75796d1ff661a42ae3175053.
---
 examples/acl-filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/examples/acl-filter.py b/examples/acl-filter.py
index 0b77aaf..f9c7e5f 100644
--- a/examples/acl-filter.py
+++ b/examples/acl-filter.py
@@ -20,8 +20,8 @@ def main():
     print(f"anyany {len(anyany)}")
 
     target = [
-        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.2.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.2.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.2.0.0", netmask="24"))),
     ]
     base = config.rules.filter(target)
     print(f"base {len(base)}")
@@ -30,8 +30,8 @@ def main():
     print(f"union {len(u)}")
 
     target = [
-        ACLRule(id="inside_in", src=ACLNode(NetworkAny()), dst=ACLNode(Network(address="10.1.0.0", netmask="24"))),
-        ACLRule(id="outside_in", dst=ACLNode(NetworkAny()), src=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="inside_in", source=ACLNode(NetworkAny()), dest=ACLNode(Network(address="10.1.0.0", netmask="24"))),
+        ACLRule(id="outside_in", dest=ACLNode(NetworkAny()), source=ACLNode(Network(address="10.1.0.0", netmask="24"))),
     ]
 
     rules = config.rules.filter(target)
-- 
2.43.0


From 39b1dcfecb8fc9ded31da40568f404e5e7fd3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 24/32] fix: an IOS configuration may start with 'Using N out
 of N bytes'

The statement was listed without the blanks between its words, so what
'show startup-config' prints could not be read.
---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 14ea7db..d75fde8 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -392,7 +392,7 @@ ignored
 	| "system" TOEOL NL
 	| "transceiver" TOEOL NL ignored_indent
 	| "username" TOEOL NL
-	| "Using" int "out of" int "bytes" NL
+	| "Using" WS int WS "out of" WS int WS "bytes" NL
 	| "vlan" TOEOL NL ignored_indent
 	| "vpdn" TOEOL NL ignored_indent
 	| "vrf" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 2688d35..e5092e7 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4395,9 +4395,13 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('Using')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('out of')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('bytes')
                 self._NL_()
             with self._option():
-- 
2.43.0


From 68f167d54990cad64ec49db3d5bf424eede49777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:11 +0000
Subject: [PATCH 25/32] fix: rules on an interface are not those of one
 described by its name

A description of wan or lan was taken for the name of an interface, so with
lan described as 'wan' the rules on wan came out as lan's.
---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b5295bf..068184e 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -112,7 +112,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
-- 
2.43.0


From 9637b48c7ecbd0657a080ba5716f4fbef581640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:46 +0000
Subject: [PATCH 26/32] fix: interface addresses without a standby address are
 read

---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..a2dfd85 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2691,11 +2691,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2712,11 +2714,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From cf593cbcfad4a6ad7a840034833caa752f988cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:15 +0000
Subject: [PATCH 27/32] fix: log-input, mobility-type and routing-type of IOS
 ipv6 access lists are read

---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index d75fde8..2fa6316 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
+	| type:"log"
+	| type:"mobility-type" WS value:int
 	| type:"mobility"
-	| type:"mobility-type" value:int
+	| type:"routing-type" [WS value:int]
 	| type:"routing"
-	| type:"routing-type" [value:int]
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index e5092e7..955f2ad 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2975,31 +2975,34 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
+                self._WS_()
                 self._int_()
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
                 self.name_last_node('type')
                 with self._optional():
+                    self._WS_()
                     self._int_()
                     self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From 586074049d65bf740205f10017d29d2efa1ae197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:26 +0000
Subject: [PATCH 28/32] fix: IOS standard access lists are numbered up to 1999

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 2fa6316..037ae36 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -294,7 +294,7 @@ access_list_ip_extended
 
 access_list_ip_standard_id
 	= /[1-9][0-9]?/ &WS
-	| /13[0-9][0-9]/ &WS
+	| /1[3-9][0-9][0-9]/ &WS
 	;
 
 access_list_ip_extended_id
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 955f2ad..9f196cc 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3980,12 +3980,12 @@ class iosParser(Parser):
                 with self._if():
                     self._WS_()
             with self._option():
-                self._pattern('13[0-9][0-9]')
+                self._pattern('1[3-9][0-9][0-9]')
                 with self._if():
                     self._WS_()
             self._error(
                 'expecting one of: '
-                '13[0-9][0-9] [1-9][0-9]?'
+                '1[3-9][0-9][0-9] [1-9][0-9]?'
             )
 
     @tatsumasu()
-- 
2.43.0


From 0f1eb716dd4686c76300ecad2195fe0857b054af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:34 +0000
Subject: [PATCH 29/32] fix: IOS routes with further arguments are read

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 037ae36..4593208 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -172,7 +172,7 @@ ip_command
 
 ip_route
 	= prefix:`None` "profile" NL
-	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) NL
+	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) [WS TOEOL] NL
 	;
 
 ip_access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 9f196cc..11d7d2e 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3168,6 +3168,9 @@ class iosParser(Parser):
                             '<acl_interface_id> <ip4>'
                         )
                 self.name_last_node('gw')
+                with self._optional():
+                    self._WS_()
+                    self._TOEOL_()
                 self._NL_()
                 self._define(['gw', 'mask', 'prefix'], [])
             self._error(
-- 
2.43.0


From 0090391a91284c782ede28407a7240a7d79dfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:44 +0000
Subject: [PATCH 30/32] fix: IOS access lists may end in a remark

---
 lib/acltk/ios.bnf |  5 +++--
 lib/acltk/ios.py  | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 4593208..5903717 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -177,8 +177,8 @@ ip_route
 
 ip_access_list
 	(* ip access-list { { standard | extended } { access-list-name | access-list-number } | helper egress check } *)
-	= type:"standard" WS name:obj_name NL objects:{ip_access_list_standard}*
-	| type:"extended" WS name:obj_name NL objects:{ip_access_list_extended}*
+	= type:"standard" WS name:obj_name NL objects:{ip_access_list_standard}* {SP ip_access_list_remark}*
+	| type:"extended" WS name:obj_name NL objects:{ip_access_list_extended}* {SP ip_access_list_remark}*
 	;
 
 ip_access_list_standard_rule_option
@@ -271,6 +271,7 @@ access_list_remark
 access_list
 	= access_list_ip_extended
 	| access_list_ip_standard
+	| {access_list_remark}+
 	;
 
 (*
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 11d7d2e..b8ff716 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3196,6 +3196,11 @@ class iosParser(Parser):
                     self._ip_access_list_standard_()
                 self._closure(block0)
                 self.name_last_node('objects')
+
+                def block1():
+                    self._SP_()
+                    self._ip_access_list_remark_()
+                self._closure(block1)
                 self._define(['name', 'objects', 'type'], [])
             with self._option():
                 self._token('extended')
@@ -3205,10 +3210,15 @@ class iosParser(Parser):
                 self.name_last_node('name')
                 self._NL_()
 
-                def block1():
+                def block2():
                     self._ip_access_list_extended_()
-                self._closure(block1)
+                self._closure(block2)
                 self.name_last_node('objects')
+
+                def block3():
+                    self._SP_()
+                    self._ip_access_list_remark_()
+                self._closure(block3)
                 self._define(['name', 'objects', 'type'], [])
             self._error(
                 'expecting one of: '
@@ -3802,6 +3812,11 @@ class iosParser(Parser):
                 self._access_list_ip_extended_()
             with self._option():
                 self._access_list_ip_standard_()
+            with self._option():
+
+                def block0():
+                    self._access_list_remark_()
+                self._positive_closure(block0)
             self._error(
                 'expecting one of: '
                 "'access-list' <access_list_ip_extended>"
-- 
2.43.0


From 35e72ed36770d782fe215730910466a0a0a6e836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:39 +0000
Subject: [PATCH 31/32] fix: refuse a filter set with an id and a parenthesis
 after it

The id was left out: 'id A (id B)' selected what 'id B' does.
---
 lib/acltk/cafSemantics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..b94ea4e 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -90,6 +90,7 @@ class RealCafSemantics:
         objects = list(filter(lambda i: i is not None, ast.objects))
 
         if len(objects) == 1 and isinstance(objects[0], cafBlock):
+            assert ast.id is None, f"operator missing after id {ast.id}"
             return objects[0]
         ip = []
         for i in objects:
-- 
2.43.0


From c7f75f240a7bfe8ac9deaf4e980943eab1cc7e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:23 +0000
Subject: [PATCH 32/32] fix: take any character as the delimiter of an IOS
 banner, not only those of one byte

---
 lib/acltk/iosSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 6b6f6bc..8d06be8 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -259,7 +260,7 @@ class iosParser(aclParser, _iosParser):
             # not ^ or ^ not followed by C, which may follow another ^
             self._pattern(r"([^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
+            p = f"[^{re.escape(self.delim)}]*"
             self._pattern(p)
 
     @tatsumasu()
@@ -267,4 +268,4 @@ class iosParser(aclParser, _iosParser):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0

