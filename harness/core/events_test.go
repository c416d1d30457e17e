// Code generated by tools/gen_events.py; DO NOT EDIT.

package core

import (
	"time"

	"sourcegraph.com/sourcegraph/appdash"
)

type (
	nBool   bool
	nInt    int
	nInt8   int8
	nUint32 uint32
	nFloat  float64
	nStr    string
	nSlice  []int
	nMap    map[string]string
	nArr    [2]bool
)

var _ time.Time

type ev0 struct {
	E struct {
		Name  []uint64
		Value []nBool
		A1    *struct {
			A1    int32
			Y     time.Duration
			X     *[2]nBool
			unexp int
		}
	} `trace:"Ev0"`
}

func (ev0) Schema() string { return "verif0" }

type ev1 struct {
}

func (ev1) Schema() string { return "verif1" }

type ev2 struct {
	LongFieldName uint32
	AB            uint16
	Value         nUint32
	A             []int
}

func (ev2) Schema() string { return "verif2" }

type ev3 struct {
	E struct {
		Ab    uint16
		Éa    []bool
		unexp int
	} `trace:"Ev3"`
}

func (ev3) Schema() string { return "verif3" }

type ev4 struct {
	Name [12]uint
}

func (ev4) Schema() string { return "verif4" }

type ev5 struct {
	S1 struct {
		Name          int8
		LongFieldName struct {
			A1 float64
			S0 nFloat
			Z  []nInt
		}
		Value struct {
			Z             map[string]int
			Value         uint64
			B             string
			LongFieldName *struct {
				Ab [12]nUint32 `trace:"Ab:Ab"`
				A  nArr        `trace:"A_x"`
				B  *time.Duration
			} `trace:"LongFieldName"`
		}
		S1 nUint32
	}
	AB nBool `trace:"üAB"`
	X  float32
}

func (ev5) Schema() string { return "verif5" }

type ev6 struct {
	E struct {
		A [0]int16
		Z *struct {
			LongFieldName *nStr `trace:"LongFieldName:LongFieldName"`
			S0            int32
			A1            float32
			X             struct {
			} `trace:"X"`
			Z []nBool `trace:"a-Z"`
		}
		S1 float32
		X  uint64
		Éa nInt `trace:"a-Éa"`
	} `trace:"Ev6"`
}

func (ev6) Schema() string { return "verif6" }

type ev7 struct {
	Ab   *[2]uint32
	Name *[2]int8
	AB   struct {
		X    *[2]nInt
		Name [3]nUint32
	}
}

func (ev7) Schema() string { return "verif7" }

type ev8 struct {
	Y nUint32 `trace:"a-Y"`
	Z nStr
}

func (ev8) Schema() string { return "verif8" }

type ev9 struct {
	E struct {
		B nStr
		Z struct {
			AB    []bool
			S1    uint32 `trace:"üS1"`
			Value nInt8
		} `trace:"üZ"`
		Éa *time.Duration `trace:"üÉa"`
		AB uint32
	} `trace:"Ev9"`
}

func (ev9) Schema() string { return "verif9" }

type ev10 struct {
	S1 nInt8
	B  [12]uint16 `trace:"B.U.V"`
	Ab struct {
		Ab    [0]uint64
		S1    [1]nUint32 `trace:"S1"`
		Value string
		X     uint8
	} `trace:"Ab.T"`
	A *time.Duration
}

func (ev10) Schema() string { return "verif10" }

type ev11 struct {
	S1 uint64
	Y  struct {
		Y  string
		A1 struct {
			A1   nSlice
			Name nSlice
			S1   struct {
				Value map[string]uint32
				B     string
				AB    []uint8
				Éa    time.Duration
				unexp int
			}
			Y     []int16 `trace:"Y:Y"`
			unexp int
		} `trace:"A1.U.V"`
	}
	Éa    *nInt8
	Value []uint16 `trace:"Value"`
	unexp int
}

func (ev11) Schema() string { return "verif11" }

type ev12 struct {
	E struct {
		A1 struct {
			Z int64 `trace:"Z:Z"`
			Y *struct {
				Name uint32
			}
		}
		S1 [0]nInt8
	} `trace:"Ev12"`
}

func (ev12) Schema() string { return "verif12" }

type ev13 struct {
	X [12]int32 `trace:"a-X"`
}

func (ev13) Schema() string { return "verif13" }

type ev14 struct {
	LongFieldName nInt
	Z             []uint8
}

func (ev14) Schema() string { return "verif14" }

type ev15 struct {
	E struct {
	} `trace:"Ev15"`
}

func (ev15) Schema() string { return "verif15" }

type ev16 struct {
	A1 time.Duration `trace:"A1 y"`
}

func (ev16) Schema() string { return "verif16" }

type ev17 struct {
	Name int64
}

func (ev17) Schema() string { return "verif17" }

type ev18 struct {
	E struct {
		S1   []float32
		Y    nMap
		X    uint64
		Name [0]nStr
		B    *struct {
			AB nSlice
			Z  string `trace:"Z.U.V"`
		} `trace:"B_x"`
		unexp int
	} `trace:"Ev18"`
}

func (ev18) Schema() string { return "verif18" }

type ev19 struct {
	Z  *nInt
	S1 nSlice `trace:"S1.U.V"`
	B  [12]bool
}

func (ev19) Schema() string { return "verif19" }

type ev20 struct {
}

func (ev20) Schema() string { return "verif20" }

type ev21 struct {
	E struct {
		Value int16
	} `trace:"Ev21"`
}

func (ev21) Schema() string { return "verif21" }

type ev22 struct {
	LongFieldName []time.Duration
	Z             int16
	Value         *time.Duration
}

func (ev22) Schema() string { return "verif22" }

type ev23 struct {
	Y  time.Time
	Ab *int8 `trace:"Ab"`
	Z  map[string]uint8
}

func (ev23) Schema() string { return "verif23" }

type ev24 struct {
	E struct {
	} `trace:"Ev24"`
}

func (ev24) Schema() string { return "verif24" }

type ev25 struct {
	Value []nBool
}

func (ev25) Schema() string { return "verif25" }

type ev26 struct {
	S1            *[]string
	LongFieldName int16
	S0            [3]int8 `trace:"a-S0"`
	Z             nArr
	X             uint8
	A             *struct {
	}
	AB    nUint32
	Ab    bool
	Éa    []nInt8
	Value nBool
	A1    nBool
	Name  *struct {
		B bool `trace:"B.U.V"`
	}
	B struct {
	}
	Y struct {
	}
}

func (ev26) Schema() string { return "verif26" }

type ev27 struct {
	E struct {
		Éa map[nStr]nInt `trace:"Éa y"`
		S0 *struct {
			LongFieldName [12]int
			B             *struct {
			} `trace:"B:B"`
			A1    int
			unexp int
		}
		Z  nSlice
		AB *map[string]float64
		Ab *struct {
			Y             float64 `trace:"Y:Y"`
			LongFieldName []uint32
			Éa            []int64 `trace:"Éa.U.V"`
			Ab            struct {
				AB            int8
				Y             nFloat
				Z             int32
				LongFieldName *nFloat
				Ab            *nUint32
			}
			B *struct {
				Name time.Duration
				Z    map[string]time.Duration `trace:"üZ"`
			} `trace:"B.U.V"`
		}
	} `trace:"Ev27"`
}

func (ev27) Schema() string { return "verif27" }

type ev28 struct {
	X             []nInt8 `trace:"a-X"`
	LongFieldName float32
	Y             []int8
	S0            []float64
	Value         struct {
		S0 [12]float32
	}
	Éa time.Duration `trace:"0Éa"`
	Ab float32
	S1 *[]nStr
	B  *[2]float32
	A1 *[]nInt8 `trace:"A1"`
	AB *struct {
		B     *[2]uint64
		Name  uint64 `trace:"Name y"`
		Ab    nStr
		S1    nInt8
		Value nUint32
		Z     nMap
		S0    struct {
			S1 *struct {
				A  time.Duration
				A1 nUint32
				Ab uint8
			}
		} `trace:"S0.U.V"`
		LongFieldName [2]int32
		Y             int8 `trace:"Y y"`
		X             []int16
		A1            string
		A             *[]float64
		AB            []float64 `trace:"a-AB"`
		Éa            nMap
	}
	A int `trace:"A.U.V"`
	Z *struct {
		A1 nFloat `trace:"a-A1"`
	} `trace:"0Z"`
	Name *struct {
	}
}

func (ev28) Schema() string { return "verif28" }

type ev29 struct {
	A    uint32
	Z    *float64
	Y    bool
	Name *[]string
	S0   string
}

func (ev29) Schema() string { return "verif29" }

type ev30 struct {
	E struct {
		Y time.Duration
		Z nStr
		A *struct {
			X struct {
				S0   int64
				Name time.Time
			} `trace:"X_x"`
			B     int8
			unexp int
		}
		LongFieldName nSlice
		unexp         int
	} `trace:"Ev30"`
}

func (ev30) Schema() string { return "verif30" }

type ev31 struct {
	Value nMap
	Y     *struct {
		Éa *nStr
		X  struct {
			S1 *[]uint8
			AB bool
			Ab nSlice
			S0 nInt8
			A  map[nStr]int32 `trace:"A y"`
		}
		AB struct {
			Value struct {
				B             nUint32
				LongFieldName nFloat
				unexp         int
			} `trace:"Value.U.V"`
		}
		Y             uint
		LongFieldName nBool
		Z             *[2]int32
		Name          *struct {
		} `trace:"a-Name"`
		A1 nUint32 `trace:"a-A1"`
		S0 struct {
			Value *struct {
				A float64
				B []uint16
			} `trace:"Value"`
			Y *struct {
				Value         uint
				LongFieldName int64
				unexp         int
			}
			Éa *[]nInt
			S0 string
			A  [2]time.Time
		}
		Ab nArr
		S1 struct {
		} `trace:"S1.T"`
		Value time.Duration `trace:"Value_x"`
		A     nSlice        `trace:"A.T"`
		B     uint8
	}
	A1            []uint8
	X             []uint16
	A             *[]uint32
	AB            map[string]bool
	B             map[nStr]int16
	Ab            string
	LongFieldName *[]int16
	S0            []time.Time
	Z             uint `trace:"Z y"`
	Éa            nUint32
	S1            struct {
		Value *[2]int `trace:"Value y"`
		Y     map[nStr]nBool
		Z     struct {
			Z             []float32
			S1            map[nStr]time.Time
			B             *nStr `trace:"B.T"`
			LongFieldName []int32
			A1            nMap
		}
		S0 struct {
			LongFieldName struct {
				B    [0]nInt
				Name nArr `trace:"Name:Name"`
				A    *int32
			} `trace:"0LongFieldName"`
		}
		unexp int
	} `trace:"S1 y"`
	Name []float32
}

func (ev31) Schema() string { return "verif31" }

type ev32 struct {
	A             *[]int16 `trace:"A.T"`
	LongFieldName *time.Time
	S1            []string
	X             *[]bool
	Value         float64
}

func (ev32) Schema() string { return "verif32" }

type ev33 struct {
	E struct {
	} `trace:"Ev33"`
}

func (ev33) Schema() string { return "verif33" }

type ev34 struct {
	A  float32
	Z  uint
	Ab []uint `trace:"üAb"`
	Y  time.Duration
}

func (ev34) Schema() string { return "verif34" }

type ev35 struct {
	B  nFloat
	S1 [0]time.Duration
}

func (ev35) Schema() string { return "verif35" }

type ev36 struct {
	E struct {
	} `trace:"Ev36"`
}

func (ev36) Schema() string { return "verif36" }

type ev37 struct {
	Y             bool              `trace:"a-Y"`
	S0            map[string]string `trace:"S0 y"`
	LongFieldName time.Time         `trace:"üLongFieldName"`
}

func (ev37) Schema() string { return "verif37" }

type ev38 struct {
	Z  bool
	Éa struct {
		Z             nMap
		S1            uint64 `trace:"S1"`
		LongFieldName *struct {
			Name int32
		}
		Y     nSlice
		A     map[string]nFloat
		Value uint
		Éa    int64
		Ab    nStr
		X     *struct {
			Z nInt
			B struct {
				S1            []int32
				Name          float64
				Éa            []nStr  `trace:"Éa.U.V"`
				B             string  `trace:"B:B"`
				LongFieldName float64 `trace:"LongFieldName"`
			} `trace:"B.T"`
			Ab    nBool `trace:"a-Ab"`
			Éa    nInt8
			X     [2]uint
			Value struct {
				Y     map[string]nFloat
				Z     uint8
				Value *nStr
				Éa    nUint32           `trace:"a-Éa"`
				Ab    map[string]uint64 `trace:"Ab.U.V"`
			}
			S1 *struct {
				A  [1]int32
				Ab int16 `trace:"Ab_x"`
				B  [0]nInt8
			}
			AB struct {
				A1    map[nStr]nInt8
				unexp int
			}
			Name struct {
				LongFieldName bool
				B             int8
				S1            uint64
			} `trace:"0Name"`
			S0 *map[string]uint8
			A  struct {
				Y [12]time.Time
			} `trace:"0A"`
			Y             nUint32
			LongFieldName nStr
			A1            float64 `trace:"A1:A1"`
			unexp         int
		}
		S0   *[]float32 `trace:"S0.U.V"`
		Name *[2]uint64
		B    time.Duration
		AB   nInt8
		A1   int
	}
	X *struct {
		unexp int
	}
	Y struct {
		B     int64
		unexp int
	}
	B uint32
}

func (ev38) Schema() string { return "verif38" }

type ev39 struct {
	E struct {
		AB *[]uint
		Éa *struct {
		}
		Value nBool
	} `trace:"Ev39"`
}

func (ev39) Schema() string { return "verif39" }

type ev40 struct {
	A1 nStr  `trace:"A1.U.V"`
	X  *bool `trace:"X:X"`
}

func (ev40) Schema() string { return "verif40" }

type ev41 struct {
	AB struct {
		Éa uint32
		Y  nMap
	}
	Name struct {
		Y *uint64
	}
}

func (ev41) Schema() string { return "verif41" }

type ev42 struct {
	E struct {
	} `trace:"Ev42"`
}

func (ev42) Schema() string { return "verif42" }

type ev43 struct {
	X []int
	Z bool
	A struct {
	} `trace:"0A"`
	S1            *int32 `trace:"S1 y"`
	B             int64
	Éa            nStr
	S0            *nInt8
	Value         float64
	Name          int
	AB            nArr
	LongFieldName int
	A1            nMap `trace:"A1:A1"`
	Y             int8
	Ab            struct {
		S1 uint32
		B  *string   `trace:"üB"`
		Ab [3]uint8  `trace:"üAb"`
		AB []float32 `trace:"0AB"`
	}
}

func (ev43) Schema() string { return "verif43" }

type ev44 struct {
	Y *struct {
		B []nInt8
	}
	LongFieldName [0]nFloat
	Ab            struct {
		S0   int32
		Name int `trace:"a-Name"`
		A    map[string]nBool
	}
	X     map[string]float64
	unexp int
}

func (ev44) Schema() string { return "verif44" }

type ev45 struct {
	E struct {
		AB nFloat
		Ab *struct {
		}
		LongFieldName map[string]nUint32
	} `trace:"Ev45"`
}

func (ev45) Schema() string { return "verif45" }

type ev46 struct {
	Y *struct {
		Value int16
		S1    string
		A1    nArr
		A     uint32 `trace:"üA"`
		Z     struct {
			S0   *uint64
			A    float64 `trace:"üA"`
			Éa   nStr    `trace:"Éa_x"`
			Name struct {
				A  float32
				AB nStr
				S0 uint16
				Ab int32
			}
		}
		unexp int
	}
	LongFieldName map[string]nStr
	A1            struct {
		Value time.Duration
		A1    [2]nStr `trace:"A1_x"`
		Y     nBool   `trace:"0Y"`
	}
	S0 nArr
	S1 *struct {
		Ab nArr
		A1 *struct {
			Name struct {
				Ab            *nStr
				Z             uint8
				A1            uint32 `trace:"A1_x"`
				A             []nInt
				LongFieldName nBool `trace:"LongFieldName_x"`
				X             uint
				Éa            uint16
				S0            int
				AB            time.Time
				Value         nInt8
				B             bool
				S1            *map[string]int32 `trace:"S1:S1"`
				Name          map[nStr]int8     `trace:"0Name"`
				Y             string
				unexp         int
			}
			B  uint64
			S1 nMap
			A  nBool
		}
		Éa map[string]uint
		S1 struct {
			Name *uint32
			S1   *struct {
				Name          map[string]nStr `trace:"Name_x"`
				LongFieldName nFloat
				S0            int16
			}
			AB []nFloat
			A1 [1]time.Time
			S0 []nInt8
		}
		Z     *string
		X     [1]int16
		A     time.Duration
		AB    nSlice
		Value int8
		Name  struct {
			Éa *map[string]float32
			S0 *struct {
				Éa uint16
				S1 nStr `trace:"S1 y"`
			}
			LongFieldName uint64
			Z             struct {
				AB    [3]int32
				Ab    map[string]nInt `trace:"0Ab"`
				Name  uint8
				A     string
				unexp int
			}
			X     string
			S1    []int
			A     nSlice
			Y     *[]nUint32
			Value nStr
			Ab    int16
			A1    bool `trace:"0A1"`
			AB    bool
			Name  map[nStr]int `trace:"Name y"`
			B     int16        `trace:"B"`
		} `trace:"0Name"`
		S0            float64 `trace:"S0.T"`
		LongFieldName time.Duration
		Y             int
		B             struct {
		}
		unexp int
	}
	AB *struct {
		S1 struct {
			B     nSlice
			unexp int
		}
		A time.Time
		Y *nBool
		Z time.Time
	} `trace:"AB y"`
	X nInt8
	A nUint32
	B struct {
		B []time.Time
	}
	Z     *int16
	Ab    *map[string]string
	Value map[string]nFloat
	Éa    [0]string
	Name  struct {
	} `trace:"Name.U.V"`
}

func (ev46) Schema() string { return "verif46" }

type ev47 struct {
	A1    nInt
	Value *[2]string
	Éa    *nBool
}

func (ev47) Schema() string { return "verif47" }

type ev48 struct {
	E struct {
		A   *time.Time
		Ab  time.Time
		A1  map[string]int
		AB  map[string]int
		Low string `trace:"A-b"`
		B   struct {
			A *int
			B map[string]string
		}
		Ba []int
		B1 *time.Time
		Z  bool
	} `trace:"Ev48"`
}

func (ev48) Schema() string { return "verif48" }

type ev49 struct {
	A   *int
	Ab  time.Time
	A1  nMap
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *string
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev49) Schema() string { return "verif49" }

type ev50 struct {
	A   *string
	Ab  time.Time
	A1  *int
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *[]int
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev50) Schema() string { return "verif50" }

type ev51 struct {
	E struct {
		A   *bool
		Ab  time.Time
		A1  *time.Time
		AB  map[string]int
		Low string `trace:"A-b"`
		B   map[string]int
		Ba  []int
		B1  *time.Time
		Z   bool
	} `trace:"Ev51"`
}

func (ev51) Schema() string { return "verif51" }

type ev52 struct {
	A  *float64
	Ab time.Time
	A1 struct {
		A *int
		B map[string]string
	}
	AB  map[string]int
	Low string `trace:"A-b"`
	B   nSlice
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev52) Schema() string { return "verif52" }

type ev53 struct {
	A  map[string]int
	Ab time.Time
	A1 struct {
		A *int
		B map[string]string
	}
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *[]int
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev53) Schema() string { return "verif53" }

type ev54 struct {
	E struct {
		A   map[nStr]time.Time
		Ab  time.Time
		A1  []string
		AB  map[string]int
		Low string `trace:"A-b"`
		B   *time.Duration
		Ba  []int
		B1  *time.Time
		Z   bool
	} `trace:"Ev54"`
}

func (ev54) Schema() string { return "verif54" }

type ev55 struct {
	A   []string
	Ab  time.Time
	A1  *[]int
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *int
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev55) Schema() string { return "verif55" }

type ev56 struct {
	A   []time.Duration
	Ab  time.Time
	A1  *float64
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *string
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev56) Schema() string { return "verif56" }

type ev57 struct {
	E struct {
		A   [0]int
		Ab  time.Time
		A1  *bool
		AB  map[string]int
		Low string `trace:"A-b"`
		B   nMap
		Ba  []int
		B1  *time.Time
		Z   bool
	} `trace:"Ev57"`
}

func (ev57) Schema() string { return "verif57" }

type ev58 struct {
	A   *[]int
	Ab  time.Time
	A1  *float64
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *string
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev58) Schema() string { return "verif58" }

type ev59 struct {
	A   *map[string]string
	Ab  time.Time
	A1  *time.Duration
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *struct {
		A *time.Time
		B []int
	}
	Ba []int
	B1 *time.Time
	Z  bool
}

func (ev59) Schema() string { return "verif59" }

type ev60 struct {
	E struct {
		A *struct {
			A *time.Time
			B []int
		}
		Ab  time.Time
		A1  *float64
		AB  map[string]int
		Low string `trace:"A-b"`
		B   *string
		Ba  []int
		B1  *time.Time
		Z   bool
	} `trace:"Ev60"`
}

func (ev60) Schema() string { return "verif60" }

type ev61 struct {
	A struct {
		A *int
		B map[string]string
	}
	Ab  time.Time
	A1  *time.Time
	AB  map[string]int
	Low string `trace:"A-b"`
	B   struct {
		A *int
		B map[string]string
	}
	Ba []int
	B1 *time.Time
	Z  bool
}

func (ev61) Schema() string { return "verif61" }

type ev62 struct {
	A struct {
		Z []string
	}
	Ab  time.Time
	A1  map[string]int
	AB  map[string]int
	Low string `trace:"A-b"`
	B   map[nStr]time.Time
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev62) Schema() string { return "verif62" }

type ev63 struct {
	E struct {
		A  *time.Duration
		Ab time.Time
		A1 struct {
			Z []string
		}
		AB  map[string]int
		Low string `trace:"A-b"`
		B   nSlice
		Ba  []int
		B1  *time.Time
		Z   bool
	} `trace:"Ev63"`
}

func (ev63) Schema() string { return "verif63" }

type ev64 struct {
	A  nSlice
	Ab time.Time
	A1 struct {
		A *int
		B map[string]string
	}
	AB  map[string]int
	Low string `trace:"A-b"`
	B   []time.Duration
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev64) Schema() string { return "verif64" }

type ev65 struct {
	A   nMap
	Ab  time.Time
	A1  [0]int
	AB  map[string]int
	Low string `trace:"A-b"`
	B   *time.Time
	Ba  []int
	B1  *time.Time
	Z   bool
}

func (ev65) Schema() string { return "verif65" }

var userEvents = []appdash.Event{ev0{}, ev1{}, ev2{}, ev3{}, ev4{}, ev5{}, ev6{}, ev7{}, ev8{}, ev9{}, ev10{}, ev11{}, ev12{}, ev13{}, ev14{}, ev15{}, ev16{}, ev17{}, ev18{}, ev19{}, ev20{}, ev21{}, ev22{}, ev23{}, ev24{}, ev25{}, ev26{}, ev27{}, ev28{}, ev29{}, ev30{}, ev31{}, ev32{}, ev33{}, ev34{}, ev35{}, ev36{}, ev37{}, ev38{}, ev39{}, ev40{}, ev41{}, ev42{}, ev43{}, ev44{}, ev45{}, ev46{}, ev47{}, ev48{}, ev49{}, ev50{}, ev51{}, ev52{}, ev53{}, ev54{}, ev55{}, ev56{}, ev57{}, ev58{}, ev59{}, ev60{}, ev61{}, ev62{}, ev63{}, ev64{}, ev65{}}

func init() {
	for _, e := range userEvents {
		appdash.RegisterEvent(e)
	}
}
