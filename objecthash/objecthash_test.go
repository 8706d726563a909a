package objecthash

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"testing"
)

func TestVectors(t *testing.T) {
	for in, want := range map[string]string{
		`["foo","bar"]`: "32ae896c413cfdc79eec68be9139c86ded8b279238467c216cf2bec4d5f1e4a2",
		`[]`:            "acac86c0e609ca906f632b0e2dacccb2b77d22b0621f20ebece1a4835b93f6f0",
		`{}`:            "18ac3e7343f016890c510e93f935261169d9e3f565436429830faf0934f4f8e4",
	} {
		b, err := CommonJSONHash([]byte(in))
		if err != nil || hex.EncodeToString(b) != want {
			t.Errorf("%s: %x %v", in, b, err)
		}
	}
	// doc/REST-API.md, mutation log example (extra_data as stored: value has no extra data)
	for li, ed := range map[string]string{
		"Ssx+XE6if0wbp2igz+DZeBw/JKW6tBX4fsBkRhtJMMI=": "eyJ0aW1lc3RhbXAiOiIyMDE3LTA0LTIwVDA5OjA5OjI1Ljg2NTA4NjQxMisxMDowMCIsImFjdGlvbiI6InNldCIsImtleSI6IlptOXYiLCJ2YWx1ZSI6eyJsZWFmX2lucHV0IjoiWW1GeSJ9fQ==",
		"eJfPk4B8FoaTIkhESfcQyE4CEeLFIgpIB489xLBnHPI=": "eyJ0aW1lc3RhbXAiOiIyMDE3LTA0LTIwVDA5OjA5OjM5Ljc2Nzg2MDAzOSsxMDowMCIsImFjdGlvbiI6InNldCIsImtleSI6IlltRjYiLCJ2YWx1ZSI6eyJsZWFmX2lucHV0IjoiWW05NiJ9fQ==",
		"GqU9E/RevQMF1tRRPqRuxZvT3ldkTQGBbseQ4jPeI1w=": "eyJ0aW1lc3RhbXAiOiIyMDE3LTA0LTIwVDA5OjM1OjI1LjgyNzk0MDQzNSsxMDowMCIsImFjdGlvbiI6InNldCIsImtleSI6IlltRXoiLCJ2YWx1ZSI6eyJsZWFmX2lucHV0IjoiWWpKNiJ9fQ==",
	} {
		d, _ := base64.StdEncoding.DecodeString(ed)
		var o interface{}
		if err := json.Unmarshal(d, &o); err != nil {
			t.Fatal(err)
		}
		b, err := ObjectHashWithStdRedaction(o)
		if err != nil || base64.StdEncoding.EncodeToString(b) != li {
			t.Errorf("%s: got %s %v", d, base64.StdEncoding.EncodeToString(b), err)
		}
	}
}
