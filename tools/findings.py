"""Write known_findings.json: the defects found, by the property they broke.
Run by hand when a fix: commit is added; no check runs it."""
import json
import os

FIXED = '''
P09 86a2fce find() of a new path after 1000 others (path cache full) applied the builtin compile to the path
P09 94da6c1 find('[1:0]') and other slices with a stop of 0 selected through the end
P09 ac124b7 a malformed slice such as '[1:x]' in a path was not treated as a name
P01 249b2bb String.set('\\xff') raised UnicodeDecodeError
P01 e0f591e Decimal.set of a NaN the format can not represent, or sNaN, raised
P03 bba26f4 Array.set_flat took values of keys that do not address its members
P03 c1692f5 Array.set_flat matched prefixes of the flattened name
P03 abe1a08 List and Mapping set_flat raised for pairs keyed None (nested in lists)
P16 a6344bd SparseDict.set_flat of 'ab' created a field 'a' that shares the prefix
P19 35cb45f set_by_object of a SparseDict ignored fields not yet set, and renamed attributes that are omitted
P06 b9e15e1 list[i] = element replaced the element's value by the element's representation
P06 1afd266 List.pop returned the internal slot
P06 82faa31 List.sort(key=) called key with internal slots
P06 687cfc7 list += plain values stored them unwrapped
P08 d1dc489 fq_name of array members was not their index
P09 5f8bced '..' did not ascend to an empty parent, and stopped at list slots
P17 1576a01 DateYYYYMMDD.set(None) and unadaptable values left stale parts
P17 3a6fd5e JoinedString.set(5) raised, and text defaults were not split
P18 fcd6cf7 Ref kept the first target it saw when the target was replaced
P10 3e44687 validate(recurse=False) returned True if only descent validation failed
P15 1e96ef0 properties.pop and setdefault ignored inherited values and deletions
P13 055a372 a validation state that is a string or list raised in message expansion
P12 4789d43 MapEqual without a transform raised
P27 34ca119 HTTPURLValidator did not enforce required parts and raised on unparseable URLs
P27 bc7e3ea IsEmail accepted a newline after the domain
P28 76c1220 NANPphone lost the extension
P26 137cdd8 luhn10(-1) did not terminate
P12 e8f9c9b NANPnpa_nxx took no message overrides and no errors_to
P12 ff0a76c HasAtLeast, HasAtMost and HasBetween counted the wrong members of a sequence
P28 528b6e2 a card of a known brand that is not accepted raised
P28 cf55dc0 13 digit Visa numbers were refused
P20 092edfd Generator.tag('input') differed from Generator.input()
P01 c4cb312 Date, Time and DateTime accepted a newline after the text
P02 870bf6d flatten() included the members of JoinedStrings nested in other containers
P04 6c2b6ea list indexes followed by a newline were accepted in flat data
P06 259c8c6 l[-9:-8] and the like assigned and deleted the wrong members
P09 a674bc2 find() of a name with characters outside of the BMP raised
P12 f4b39ae MapEqual raised for elements without a label
P13 400be01 a plural message whose count is a number, or not numeric, raised
P15 08d7c63 classes given one Properties object shared their changes
P30 80ff345 u of a Dict depended on the order its keys were set in
P17 da6e8b2 JoinedString.set('\\xff') raised UnicodeDecodeError
P17 afca8e0 JoinedString.set([0]) pruned a member that is not blank
P18 330de77 defaults of a tree cleared the targets of its Refs
P18 64cb7c3 Refs that ignore assignments raised before they had a target
P18 3ae0515 set() of Refs to compounds and containers raised instead of setting the target
P20 811e592 void elements had an end tag in html
P20 5f93ffc line ends and tabs in values were lost by a parser
P21 6d50378 html textareas lost a leading newline
P21 f4dd6a3 radio buttons and check boxes without a value were checked or unchecked
P22 4f2aa75 set() with an unknown setting could change others first
P21 19d38f1 checked and selected states of arrays compared the wrapped value, not the u of the members
P25 68d4fd9 SparseDict.set_default made its fields outside the tree, so factories saw no parent
P25 ddc9f6a a List default that is a long (such as 2L) was refused, unlike an int
P26 08ae03f flatland.util.__all__ named decorator and format_argspec_plus, which do not exist
P27 f7906bc URLCanonicalizer rewrote value but left u with the discarded parts
P27 4dedeed URLCanonicalizer turned a path starting with // into a host (http:////x to http://x) and was not idempotent
P27 d6fcca9 IsEmail raised IllegalArgumentException for domains such as xn--\u00e9.com (Jython's idna codec)
P28 ac0735c CreditCardNumber.set of 13 or more separators without a digit raised ValueError
P28 cdd4ed1 NANPphone refused ten international digits with a leading zero
P30 513a228 x and xa did not escape carriage returns, and xa tabs and newlines, so parsers changed them
P24 984e8c6 an overridden __compound_init__ that calls super marked the class as prepared half way: other threads could construct instances
P23 6531c89 the Genshi settings of form:set and form:with were lost outside of the template scope of their first use
P23 261ba30 form:set did not evaluate its filters expression and the render failed
P23 d5d5586 Genshi kept the contents of a tag that a transform had emptied
P23 5d5ba7e options with directives of their own crashed or were not bound by their select in Genshi
P23 e15e412 interpolated contents and attributes of Genshi tags lost markup, streams, lists and None
P23 4b95a39 a bound Genshi tag removed by py:strip raised an error
P30 c93cbc6 an empty element was equal to any schema class
P02 9f03ed4 lists and arrays of empty names lost their members in flat data, and members or fields named '' of lists too
P14 f0eb20a DateYYYYMMDD.using(optional=True) kept non-optional parts once a plain DateYYYYMMDD had been used
P05 7188603 *= on a List or Array put the same members into the tree several times, and two slots of a List had the same name
P06 ddbc7d0 index(value, start) of a List or Array raised TypeError
P06 b8a401f List + list and List * n gave internal slot objects in place of members
P06 3253b15 sequence += itself never returned
'''
findings = []
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(' ', 2)
    findings.append({'property': pid, 'mechanism': what, 'status': 'fixed', 'commit': commit,
                     'what': 'fixed: property=%s %s %s' % (pid, commit, what)})
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
with open(path, 'w', encoding='utf-8') as f:
    json.dump({'findings': findings}, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(findings))
