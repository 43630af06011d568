property="C07"
needs="a quoted string whose last escape is a hex pair followed directly by the closing quote with one digit"
breaks="a hex escape with a single digit before the closing quote is decoded instead of rejected"
edits=[("go_algorand.go",'''			if pos >= len(input)-2 { // count a closing quote
				return nil, fmt.Errorf("non-terminated hex seq")
			}
			num, err := strconv.ParseUint(input[pos:pos+2], 16, 8)''','''			if pos >= len(input)-1 { // count a closing quote
				return nil, fmt.Errorf("non-terminated hex seq")
			}
			num, err := strconv.ParseUint(strings.TrimSuffix(input[pos:pos+2], "\\""), 16, 8)''')
,("go_algorand.go",'''	"strconv"
''','''	"strconv"
	"strings"
''')]
demo='''
package teal

import "testing"

func TestDemo(t *testing.T) {
	if v, err := parseStringLiteral("\\"\\\\x1\\""); err == nil {
		t.Fatal(v)
	}
}
'''
