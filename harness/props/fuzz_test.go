package props

import (
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/ipfs/go-unixfs/verif/vt"
)

var fuzzed = map[string]func(t *testing.T){
	"B01": TestB01,
	"B02": TestB02,
	"C01": TestC01,
	"D01": TestD01,
	"D02": TestD02,
	"D03": TestD03,
	"D04": TestD04,
	"D05": TestD05,
	"D06": TestD06,
	"D07": TestD07,
	"D08": TestD08,
	"D09": TestD09,
	"F01": TestF01,
	"F02": TestF02,
	"F03": TestF03,
	"F04": TestF04,
	"H01": TestH01,
	"H02": TestH02,
	"H03": TestH03,
	"H04": TestH04,
	"H05": TestH05,
	"I01": TestI01,
	"I02": TestI02,
	"I03": TestI03,
	"I04": TestI04,
	"I05": TestI05,
	"I06": TestI06,
	"I07": TestI07,
	"I08": TestI08,
	"M01": TestM01,
	"M02": TestM02,
	"M03": TestM03,
	"M04": TestM04,
	"M05": TestM05,
	"M06": TestM06,
	"M07": TestM07,
	"M08": TestM08,
	"R01": TestR01,
	"R02": TestR02,
	"R03": TestR03,
	"R04": TestR04,
	"R05": TestR05,
	"R06": TestR06,
	"S01": TestS01,
	"U01": TestU01,
	"U02": TestU02,
	"X01": TestX01,
	"X02": TestX02,
}

// FuzzProp searches the cases of one check with the coverage-guided fuzzer of
// Go: the bytes it mutates are the random choices of the generator.
func FuzzProp(f *testing.F) {
	id := os.Getenv("VERIF_FUZZ_ID")
	test, ok := fuzzed[id]
	if !ok {
		f.Skip("no property chosen")
	}
	prop := vt.Captured(test, 5*time.Minute)
	f.Fuzz(rapid.MakeFuzz(prop))
}
