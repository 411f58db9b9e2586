// Package checks holds one exhaustive check per property.
package checks

import "verifmc/kit"

var registry []*kit.Check

func register(c *kit.Check) {
	if more, bounds := moreBounds[c.Property], c.Bounds; more[0] != "" {
		c.Bounds = func(t kit.Tier) string {
			if t == kit.Thorough {
				return bounds(t) + "; " + more[1]
			}
			return bounds(t) + "; " + more[0]
		}
	}
	for _, part := range c.Parts {
		if bounds := c.Bounds; part.Name == "interplay" {
			c.Bounds = func(t kit.Tier) string {
				return bounds(t) + "; " + map[kit.Tier]string{
					kit.Quick:    "interplay: 68 statements; all pairs with one of the property's in 7 positions, triples with two (a third of those with one) in a loop, 3 sets of values each",
					kit.Thorough: "interplay: 68 statements; all pairs and triples with one of the property's in 7 positions, sequences of 4 of the property's statements and assignments in a loop, 3 sets of values each",
				}[t]
			}
		}
	}
	registry = append(registry, c)
}

// moreBounds: quick and thorough bounds of the parts sizes, aliases, alikes, kinds and kept; "every n<=a, and around powers of two up to b".
var moreBounds = map[string][2]string{
	"C01": {"sizes: texts of every length<=9000 and around powers of two up to 131072, in blocks and around references <=4200 / 65536; <=300 constructs in a row", "sizes: texts of every length<=70000 and around powers of two up to 131072, in blocks and around references <=20000 / 65536; <=1100 constructs in a row"},
	"C02": {"sizes: constructs repeated and nested every number<=40 of times", "sizes: constructs repeated and nested every number<=120 of times"},
	"C03": {"sizes: names of every length<=2100 (32768 around powers of two), <=260 path segments or arguments (2048)", "sizes: names of every length<=9000 (32768 around powers of two), <=1000 path segments or arguments (2048)"},
	"C05": {"sizes: chains of every number<=130 of operands, nests of <=17 levels, negations and parentheses <=40", "sizes: chains of every number<=300 of operands, nests of <=40 levels, negations and parentheses <=150"},
	"C06": {"sizes: <=68 arms, conditions of <=60 operands", "sizes: <=140 arms, conditions of <=200 operands"},
	"C07": {"sizes: lists of every length<=1100 and around powers of two up to 65536; <=24 loops nested or in sequence; ranges around the powers of two and ten up to 2^62", "sizes: lists of every length<=4000 and around powers of two up to 524288; <=60 loops; ranges around the powers of two and ten up to 2^62"},
	"C08": {"sizes: every number of iterations<=1100 and around powers of two up to 4096; <=24 loops", "sizes: every number of iterations<=4000 and around powers of two up to 65536; <=60 loops"},
	"C09": {"sizes: blocks of every length<=70 (plain ones <=150) in several positions", "sizes: blocks of every length<=200 (plain ones <=500) in several positions"},
	"C10": {"sizes: <=270 variables and assignments; strings of every length<=2100 and around powers of two up to 32768 assigned, joined and copied", "sizes: <=520 variables and assignments; strings of every length<=9000 and around powers of two up to 32768 assigned, joined and copied"},
	"C11": {"sizes: structs of every number<=70 of fields (256 around powers of two), chains of <=40 pointers, complete and broken at each place", "sizes: structs of every number<=300 of fields (1024 around powers of two), chains of <=120 pointers, complete and broken at each place"},
	"C12": {"sizes: slices and maps of every size<=200 (2048), literal indexes <=300 (4096); keys behind pointers of every kind", "sizes: slices and maps of every size<=500 (4096), literal indexes <=1000 (4096); keys behind pointers of every kind"},
	"C13": {"sizes: every number<=80 (256) of variables and names; aliases: all near spellings of a name and of each other", "sizes: every number<=300 (1024) of variables and names; aliases: all near spellings of a name and of each other"},
	"C14": {"sizes: 400 executions of one state, 100 states at once, of each plan", "sizes: 4000 executions of one state, 1000 states at once, of each plan"},
	"C17": {"sizes: evaluated texts of every length<=2100 and around powers of two up to 32768; <=60 and <=120 evaluations nested and in a row", "sizes: evaluated texts of every length<=9000 and around powers of two up to 32768; <=200 and <=600 evaluations nested and in a row"},
	"C18": {"alikes: all pairs of texts differing in white space, case, length or a single character, evaluated in turns at one and two places", "alikes: all pairs of texts differing in white space, case, length or a single character, evaluated in turns at one and two places"},
	"C19": {"sizes: every number<=60 of calls, each one or all from one on failing; kinds: errors of every Go kind, empty messages, wrapped, typed nil", "sizes: every number<=200 of calls, each one or all from one on failing; kinds: errors of every Go kind, empty messages, wrapped, typed nil"},
	"C20": {"sizes: variadic functions of every number<=70 of arguments, chains and nests of <=40 calls, <=130 in a row; kept: 12 kinds of arguments x places x 8 forms of call kept by the function", "sizes: variadic functions of every number<=260 of arguments, chains and nests of <=120 calls, <=500 in a row; kept: 12 kinds of arguments x places x 8 forms of call kept by the function"},
	"C21": {"sizes: strings, lists and maps of every size<=70 and around powers of two up to 1024", "sizes: strings, lists and maps of every size<=300 and around powers of two up to 8192"},
	"C22": {"sizes: values of every length<=300 and around powers of two up to 2^22, into buffers of 0 bytes to the whole length", "sizes: values of every length<=3000 and around powers of two up to 2^23, into buffers of 0 bytes to the whole length"},
	"C23": {"sizes: special characters at every place of strings of every length<=140; strings <=4200 and around powers of two up to 131072", "sizes: special characters at every place of strings of every length<=300; strings <=20000 and around powers of two up to 131072"},
	"C24": {"sizes: 120 compilations of one planner, each executed after every other", "sizes: 400 compilations of one planner, each executed after every other"},
	"C25": {"sizes: special characters at every place of strings of every length<=140; strings <=4200 and around powers of two up to 131072", "sizes: special characters at every place of strings of every length<=300; strings <=20000 and around powers of two up to 131072"},
}

// All returns every check.
func All() []*kit.Check { return registry }
