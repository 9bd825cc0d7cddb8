#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the one list below.

    /opt/venv/bin/python tools/mkmeta.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib/acltk/"
PROPS = []


def p(id, title, statement, over, text, why, mechanism, oracle, state=(), observe=()):
    files = sorted({L + m[1].split(":")[0] for m in mechanism})
    PROPS.append(
        {
            "oracle": oracle,
            "prop": {
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "mechanism": [{"name": n, "where": L + w} for n, w in mechanism],
                    **({"state": [{"name": a, "meaning": b, "where": L + c} for a, b, c in state]} if state else {}),
                    **({"observe_at": list(observe)} if observe else {}),
                    "hook_needed": None,
                },
            },
        }
    )


p(
    "P01",
    "Filter expressions are set algebra over their sets",
    "Running a filter expression built from union, intersect, except and parentheses selects exactly the rules and NAT entries that set algebra gives from the selections of its individual sets. Parentheses bind first, then intersect; union and except share one level and are applied from left to right.",
    ["programs", "inputs"],
    "every expression tree over the three operators with any nesting and parenthesisation, over sets with any selections",
    "The tests run a handful of fixed expressions against one sample configuration; precedence, associativity and nesting mistakes need expressions and selections that tell the readings apart.",
    [("filter grammar", "caf.bnf"), ("operators over selections", "cafObjects.py:cafBlock.run, cafOpUnion, cafOpIntersect, cafOpExcept"), ("expression building", "cafSemantics.py:RealCafSemantics.expr")],
    "reference evaluator over the selections of the single sets",
    observe=["lib/acltk/aclObjects.py:ACLConfig.filter"],
)
p(
    "P02",
    "A filter set selects exactly the rules its id, source and destination match",
    "Filtering a configuration with one set returns exactly the access rules whose access list name matches the set's id (an exact name or a glob) and whose source and destination address sets each share an address with one of the set's source respectively destination addresses; a criterion the set leaves out does not constrain. The same holds for every configuration format.",
    ["inputs", "configurations"],
    "every configuration the parsers accept and every filter set, with addresses anywhere relative to the rules' bounds",
    "The tests filter one sample by a few addresses; a boundary, a version mix-up, an operand swap or an id glob that matches too much shows only on particular pairs of rule and filter.",
    [("set building", "cafSemantics.py:RealCafSemantics.set, network"), ("set evaluation", "aclObjects.py:ACLRules.filter, ACLRule.__and__"), ("address overlap", "aclObjects.py:ACLNode.__and__, Network*.__and__"), ("literal ANY", "cafObjects.py:cafNetworkAny, cafNetworkAny4, cafNetworkAny6")],
    "reference model on integer address intervals, wildcard bits and fnmatch",
    observe=["lib/acltk/aclObjects.py:ACLConfig.filter"],
)
p(
    "P03",
    "Overlap of two address specifications is exact and symmetric",
    "Two address specifications (host, network, range, wildcard, any, named object, nested group) overlap for the tool exactly if some IP address of one version belongs to both, whatever was done with the groups before. The answer is the same whichever of the two is asked.",
    ["inputs", "histories"],
    "every pair of address specifications of every kind, IPv4 and IPv6, whichever bounds they have, and every history of groups that grow while being compared",
    "There are dozens of kind pairs and each has boundary cases; the tests look at a few hosts and networks and never at both directions.",
    [("overlap", "aclObjects.py:Network.__and__, NetworkHost.__and__, NetworkWildcard.__and__"), ("objects and any", "aclObjects.py:NetworkObject, NetworkAny, NetworkAny4, NetworkAny6, NetworkInterface"), ("groups", "aclObjects.py:NetworkGroup.__and__")],
    "integer interval and wildcard-bit arithmetic",
)
p(
    "P04",
    "ASA/FWSM access rules come out of the parser as written",
    "For every ASA or FWSM configuration, the parsed rule list has one rule per access-list line, in order, with the list name, permit/deny, protocol, source, destination, ports, ICMP type and code, options and time range of that line, names and objects resolved to their definitions, and the remarks written directly before the rule. No rule is lost, added or duplicated.",
    ["inputs", "configurations"],
    "every ASA/FWSM configuration text composed of the supported statements",
    "The tests parse fixed samples and mostly check that parsing succeeds; a field dropped or swapped for one combination of address form, operator and option goes unseen.",
    [("grammar", "fwsm.bnf"), ("rule construction", "aclSemantics.py:aclSemantics"), ("ASA rules", "fwsmSemantics.py:fwsmSemantics"), ("rule", "aclObjects.py:ACLRule")],
    "round trip from drawn items to text to parsed rules",
)
p(
    "P05",
    "ASA/FWSM definitions come out of the parser as written",
    "For every ASA or FWSM configuration, the names, network and service objects, object groups of every type with their nesting, time ranges, interfaces and access-group bindings in the parsed configuration are exactly those written, each with all its members in order and its description.",
    ["inputs", "configurations"],
    "every set of ASA/FWSM definitions, including nested groups, both IP versions and all member forms",
    "The tests look at a couple of groups of one sample; members silently dropped, merged or attached to another definition need a comparison of everything with what was written.",
    [("grammar", "fwsm.bnf"), ("objects and groups", "aclSemantics.py:aclSemantics"), ("definitions", "aclObjects.py:NetworkGroup, ServiceGroup, PortGroup, ICMPGroup, ProtocolGroup, TimeRange")],
    "round trip from drawn definitions to text to parsed definitions",
)
p(
    "P06",
    "IOS access lists come out of the parser as written",
    "For every IOS configuration, each named, numbered and IPv6 access-list entry becomes one rule, in order, with its list, sequence number, remark, permit/deny, protocol, source and destination including wildcard masks, ports, ICMP message and options; each object group holds exactly the members written.",
    ["inputs", "configurations"],
    "every IOS configuration composed of the supported access-list and object-group statements",
    "The tests parse fixed samples and do not compare fields; wildcard masks, implied hosts and option combinations are barely touched.",
    [("grammar", "ios.bnf"), ("IOS rules", "iosSemantics.py:iosSemantics"), ("common construction", "aclSemantics.py:aclSemantics")],
    "round trip from drawn items to text to parsed rules",
)
p(
    "P07",
    "IOS interfaces, trunks, routes and list bindings come out as written",
    "For every IOS configuration, the parsed interfaces carry the addresses, secondary and IPv6 addresses, access-list bindings with direction and allowed VLANs that were written, and every static route is attached to the interface it names or whose connected network contains its gateway.",
    ["inputs", "configurations"],
    "every IOS configuration with interfaces, VLAN trunk lists, routes and bindings",
    "The tests check one interface of one sample; VLAN list arithmetic and gateway lookup have boundary cases that samples do not hit.",
    [("interface details", "aclObjects.py:Interface"), ("VLAN lists and routes", "iosSemantics.py:iosSemantics.vlan_list, ip_route"), ("routes of interfaces", "iosObjects.py:iosConfig")],
    "round trip from drawn items, interval arithmetic for gateways",
)
p(
    "P08",
    "pfSense/OPNsense rules and aliases come out as stored",
    "For every pfSense or OPNsense configuration file, the parsed rules (type, interface, protocol, source, destination, ports, ICMP type, log, disabled, description), aliases, interfaces and separators are exactly those stored in the XML, in the same order, whatever the order of the sections.",
    ["inputs", "configurations"],
    "every pfSense/OPNsense configuration built from the supported elements",
    "The tests load a few sample files; element order, empty elements, optN interfaces and alias kinds combine in ways the samples do not show.",
    [("XML reading", "pfsenseSemantics.py"), ("objects", "pfsenseObjects.py")],
    "round trip from drawn values to XML to parsed objects",
)
p(
    "P09",
    "Wildcard masks match bit by bit",
    "An access-list entry written with an address and a wildcard mask is matched by a filter exactly if some address of the filter agrees with the written address in every bit the mask leaves significant, for contiguous and non-contiguous masks alike.",
    ["inputs"],
    "every address, wildcard mask and probe (host, network, range, other wildcard)",
    "Samples use masks like 0.0.0.255 only; scattered bits and the comparison of two wildcards need exact arithmetic over all of them.",
    [("wildcard", "aclObjects.py:NetworkWildcard"), ("IOS reading of masks", "iosSemantics.py:iosSemantics")],
    "(x xor address) and not mask = 0, and enumeration of all addresses for small probes",
)
p(
    "P10",
    "A name stands for exactly the definition written under that name",
    "Every reference to an object, group, service, time range, name, alias or interface resolves to the definition with exactly that name and of the kind the place calls for, also when other names are its prefixes, extensions or case variants. A reference to something that is not defined is refused.",
    ["configurations"],
    "every set of definitions under similar names and every reference to them",
    "The tests have few names and none that are prefixes of each other; a wrong lookup is silent, as the rule then stands for other addresses.",
    [("lookup of names while parsing", "aclSemantics.py:aclParser._learn, __acl_internal_ids"), ("names", "fwsmSemantics.py:fwsmSemantics.name"), ("access groups", "aclObjects.py:ACLConfig.__init__"), ("aliases", "pfsenseSemantics.py:_parse_aliases, _parse_interfaces")],
    "each reference must show the content of the definition with that exact name",
)
p(
    "P11",
    "Malformed or out-of-range access control text is refused",
    "A configuration with an access rule, object, group, address, mask, port, protocol, ICMP type, time or XML element that is malformed, out of range or unknown is refused with an error, both by the format's own parser and by format detection. It is never parsed into rules that leave the faulty part out.",
    ["inputs"],
    "every valid configuration with one fault of each class at every place it can occur",
    "The tests contain almost no negative inputs; a parser that skips or half reads a faulty line reports a wrong rule set without any sign.",
    [("grammars", "fwsm.bnf"), ("IOS grammar", "ios.bnf"), ("value checks", "aclSemantics.py:aclSemantics"), ("ports", "aclObjects.py:PortRange"), ("XML dispatch", "pfsenseSemantics.py")],
    "one-fault mutation of a valid configuration; must raise",
)
p(
    "P12",
    "Format detection and every way of loading give the same configuration",
    "Loading a configuration with format detection, from text, bytes, an open file or a path, with or without a byte order mark, with Unix or DOS line ends and with or without a final newline, gives the same kind of configuration with the same content as the parser of its own format. Text that is no configuration is refused with ValueError.",
    ["inputs", "configurations"],
    "every configuration of the three formats with at least one access rule, by every way of loading",
    "The tests load the samples in one or two ways; detection depends on one parser refusing what is meant for another.",
    [("detection", "aclObjects.py:ACLConfig.fromString / fromFile / fromPath"), ("pfSense", "pfsenseObjects.py:pfsenseConfig")],
    "differential between loading ways and the format's own parser",
)
p(
    "P13",
    "Unrelated statements and layout do not change the access control content",
    "Adding statements the tool does not interpret (other commands with their indented sub-lines, comments, separators, banners, blank lines, trailing blanks, unknown XML sections and comments), even when their text looks like access rules, leaves the parsed rules, definitions and NAT entries unchanged.",
    ["inputs", "configurations"],
    "every configuration and every insertion of ignorable text between its statements",
    "Configurations in the field are mostly statements the tool must skip; the samples hold only some, and skipping too much or too little is silent.",
    [("ignored statements", "fwsm.bnf"), ("IOS ignored statements", "ios.bnf"), ("banners", "iosSemantics.py:iosSemantics"), ("XML sections", "pfsenseSemantics.py")],
    "metamorphic: observation with and without the insertion is equal",
)
p(
    "P14",
    "Expanding groups and objects keeps the meaning of the rules",
    "Expanding a configuration's groups and objects yields rules whose addresses and services are the flattened members of the groups they refer to, in order, without changing which addresses or services any rule covers or what any filter selects. Expanding twice is the same as once, and asking for a copy leaves the original untouched.",
    ["configurations", "histories"],
    "every configuration with nested groups and objects and every order of expansions",
    "The tests expand one sample and look at a few lines; nesting depth, shared groups and copies matter.",
    [("expansion", "aclObjects.py:ACLConfig.expand"), ("groups", "aclObjects.py:_Group.expand, NetworkGroup.expand, ServiceGroup.expand, PortGroup.expand")],
    "reference flattening of the drawn groups",
)
p(
    "P15",
    "Collapsing and sorting groups keeps their address and service sets",
    "Collapsing an address group yields the smallest list of hosts and networks covering exactly the same addresses. Sorting a group in place yields a permutation of its members with addresses (per IP version), numeric ports and numeric protocols ascending; a sorted copy is sorted in the same way with the groups in it expanded (and addresses collapsed). Asking for a copy leaves the original untouched.",
    ["inputs", "histories"],
    "every address, service, port and protocol group, any member order, overlap and IP version",
    "The tests collapse a few networks; adjacent and nested networks, ranges across the whole space, mixed versions and copies are open.",
    [("collapse and sort", "aclObjects.py:NetworkGroup.collapse, NetworkGroup.sort, ServiceGroup.sort, PortGroup.sort, ProtocolGroup.sort")],
    "integer interval arithmetic on the address sets",
)
p(
    "P16",
    "The HTML report shows exactly the selected rules and no dangling links",
    "Rendering the report for a filter selection lists every selected rule and NAT entry once, in order, with its fields, and no other rule. Every object, group, service and time range that a listed rule refers to, directly or through other definitions, is listed too, so that no link to a definition is dangling, and no definition that none of them refers to.",
    ["configurations", "inputs"],
    "every configuration and every selection of its rules",
    "The tests render nothing; which definitions a selection needs depends on the nesting of groups.",
    [("resolving of definitions in use", "aclObjects.py:ACLConfig.resolve"), ("selection", "aclObjects.py:ACLConfig.filter")],
    "closure of references computed from the drawn items, links parsed from the HTML",
)
p(
    "P17",
    "ASA NAT statements come out of the parser as written",
    "Every object NAT and twice NAT statement becomes one NAT entry with the interfaces, static or dynamic type, real and mapped source and destination, translated services and ports, section, and options that were written, in order.",
    ["inputs", "configurations"],
    "every NAT statement of the supported forms",
    "The tests parse a few NAT lines without looking at the fields; real and mapped sides swap places between source and destination and between object and twice NAT.",
    [("NAT grammar", "fwsm.bnf"), ("twice NAT", "fwsmSemantics.py:fwsmSemantics.nat, nat_src, nat_dst"), ("object NAT", "aclSemantics.py:aclSemantics.network_object_nat"), ("sections", "aclObjects.py:ACLConfig.__init__")],
    "round trip from drawn statements to text to parsed entries",
)
p(
    "P18",
    "A filter selects exactly the NAT entries whose addresses match it",
    "Filtering selects exactly the NAT entries whose real or whose mapped address pair matches the source and destination of the filter set; a part the entry or the set leaves out does not constrain.",
    ["configurations", "inputs"],
    "every configuration with object and twice NAT and every filter set",
    "The tests filter NAT by one or two addresses; pairs of real and mapped sides and absent parts give many combinations.",
    [("NAT matching", "aclObjects.py:NATObject.__and__, ACLRule.__and__"), ("selection", "aclObjects.py:ACLConfig.filter")],
    "reference model on integer intervals",
)
p(
    "P19",
    "Operations leave configurations alone and always give the same answer",
    "Filtering, resolving, rendering and copying operations never change a configuration or affect another one loaded from the same or another text, whatever their order; repeating an operation gives the same result, and a filter result consists of the configuration's own rules. A configuration that went through serialisation behaves like the original.",
    ["histories", "configurations"],
    "every sequence of operations on one or several loaded configurations",
    "The tests perform one operation on one fresh configuration; shared mutable state shows only in histories.",
    [("filter", "aclObjects.py:ACLConfig.filter"), ("copies", "aclObjects.py:_Group.expand, NetworkGroup.collapse, NetworkGroup.sort"), ("parser instances", "aclSemantics.py:aclParser")],
    "stateful comparison with a model that holds the initial observation",
)
p(
    "P20",
    "Layout, comments and the way of loading do not change a filter",
    "A filter program gives the same selection whatever white space, line breaks, comments between its clauses and redundant parentheses it is written with, and whether it is loaded from text, a file or a path.",
    ["programs"],
    "every filter program and every layout of it",
    "The tests hold a few programs in one layout; comments with unusual content and places are open.",
    [("filter grammar", "caf.bnf"), ("loading", "cafObjects.py:cafBlock.fromString, fromFile, fromPath"), ("building", "cafSemantics.py")],
    "metamorphic: same selection and same structure as the plain layout",
)
p(
    "P21",
    "A malformed filter program is refused",
    "A filter program with an unknown word or operator, a missing word, unbalanced parentheses, an unterminated comment, a criterion given twice, or an address, mask or prefix length that is not one is refused with an error. It never selects rules by the part that could be read.",
    ["programs"],
    "every valid filter program with one fault anywhere",
    "The tests hold hardly any faulty program; a filter that is half read selects the wrong rules silently.",
    [("filter grammar", "caf.bnf"), ("value checks", "cafSemantics.py")],
    "one-fault mutation of a valid program; must raise",
)
p(
    "P22",
    "Documented names and numbers are read as themselves and ports compare as values",
    "Every documented port, ICMP type and protocol name and every number in range is accepted in each place that takes one, with every operator, and is reported as exactly that name or number, also when another name is its prefix; an unknown name or one of another kind is refused. Looking up a service name gives the documented number for the protocol asked for, in any case spelling of the protocol, and nothing for other names. Ports compare as values: they are equal, and hash equally, exactly if operator and number agree, and their order is total; a numeric port range has to ascend.",
    ["inputs"],
    "every documented name, every number from 0 to 65535, every operator, place and protocol, and every pair of ports",
    "The tests look at a few names; the tables have over a hundred entries in a dozen places each, and every one is a chance of a wrong number or of a prefix being taken for the whole.",
    [("service table", "aclObjects.py:PortUtil"), ("ports", "aclObjects.py:Port, PortRange"), ("names in the grammar", "acl.bnf:port_code, icmp_type_name, protocol_code"), ("reading of ports", "aclSemantics.py:aclSemantics")],
    "reference table of the vendors' names, round trip through every place, order axioms",
)
p(
    "P23",
    "The shipped parsers accept the language of the shipped grammars",
    "For every input, the shipped parser of each format behaves exactly like a parser generated from the shipped grammar file: both refuse it, or both accept it with the same result.",
    ["inputs"],
    "every configuration and filter text, valid or damaged",
    "The parsers are generated files under version control; the tests never compare them with the grammars, so a change of one without the other goes unseen.",
    [("grammars", "fwsm.bnf"), ("IOS grammar", "ios.bnf"), ("filter grammar", "caf.bnf"), ("generated parsers", "fwsm.py"), ("generated IOS parser", "ios.py"), ("generated filter parser", "caf.py")],
    "differential between the shipped parser and one compiled from the grammar at run time",
)
p(
    "P24",
    "The front ends list what the filter selects from the configuration they hold",
    "The report pages of the web application and the output of the command line programs list exactly the rules and NAT entries the filter selects from the configuration last loaded under the name asked for, with its definitions. Neither earlier requests (expanded views, other filters, failed uploads, faulty filters) nor other stored configurations change what a page shows, a faulty filter is reported with the unfiltered page, and a name nothing is stored under is not found.",
    ["histories", "configurations"],
    "every history of uploads and page requests over configurations of every format, and every configuration and filter given to the command line programs",
    "No test runs the front ends; what a page shows depends on everything stored and requested before it, on serialisation and on in-place operations on a stored configuration.",
    [("name of a configuration", "aclObjects.py:ACLConfig.name"), ("loading uploads", "aclObjects.py:ACLConfig.fromFile"), ("what a page lists", "aclObjects.py:ACLConfig.filter, resolve, expand"), ("filters", "cafObjects.py:cafBlock.fromString, run")],
    "reference store and reference model of the selection, pages compared with those of a freshly loaded instance",
    observe=["examples/render/dynamic.py:show", "examples/render/static.py", "examples/caf-filter.py", "examples/acl-filter.py"],
)


NA = {}


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.startswith("p") and f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps(x["prop"]) + "\n")
    checks, na = [], []
    for x in PROPS:
        i = x["prop"]["id"]
        if i not in built:
            na.append({"property": i, "reason": NA.get(i, "no check yet: planned with generated inputs, not claimed until it is built")})
            continue
        cmd = f"/opt/venv/bin/python run.py {i} --tier "
        checks.append(
            {
                "property": i,
                "quick_cmd": cmd + "quick",
                "thorough_cmd": cmd + "thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "property-based testing (Hypothesis generators, shrinking) against an oracle: " + x["oracle"],
                "level": "exploration",
                "level_note": "Random search over generated cases within the domain described in DESIGN.md; no failure found on the cases explored, not a proof. Trusts the reference model in vlib/, Hypothesis and Python's ipaddress.",
            }
        )
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every check drives the public classes from /repo/lib of the current working tree. The seed comes from VERIF_SEED.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
