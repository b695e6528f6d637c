package main

// Written by tools/gen_kinds.py.

import "github.com/danomagnum/gologix/lgxtypes"

type own_celsius float32
type own_count int32
type own_code int16
type own_wide uint64

type recipeStep struct {
	F0 int8
}

type Valve2Way74 struct {
	F0 int16
}

type StationData596 struct {
	F0 int32
}

type Pump struct {
	F0 int64
}

type UDT444 struct {
	F0 uint16
}

type Valve2Way92 struct {
	F0 uint32
}

type StationData846 struct {
	F0 uint64
}

type t228 struct {
	F0 float32
}

type PID_Loop970 struct {
	F0 float64
}

type Pump406 struct {
	F0 own_celsius
}

type Pump136 struct {
	F0 own_count
}

type AB_12553 struct {
	F0 own_code
}

type Motor_Run573 struct {
	F0 own_wide
}

type PID_Loop595 struct {
	F0 bool
}

type t381 struct {
	F0 bool
	F1 bool
}

type Motor_Run64 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type t210 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type Z_437 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
}

type recipeStep945 struct {
	F0 bool
	F1 int8
	F2 bool
}

type Z_254 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 int8
	F9 bool
}

type X249 struct {
	F0 bool
	F1 [2]int32
	F2 bool
}

type Motor_Run537 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 [2]int32
	F9 bool
}

type Z_746 struct {
	F0 bool
	F1 lgxtypes.TIMER
	F2 bool
}

type Z_74 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 lgxtypes.TIMER
	F9 bool
}

type Motor_Run168 struct {
	F0 bool
	F1 [2]lgxtypes.COUNTER
	F2 bool
}

type recipeStep500 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 [2]lgxtypes.COUNTER
	F9 bool
}

type Valve2Way684 struct {
	F0 bool
	F1 lgxtypes.STRING
	F2 bool
}

type Motor_Run586 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 lgxtypes.STRING
	F9 bool
}

type recipeStep358 struct {
	F0 bool
	F1 lgxtypes.CONTROL
	F2 bool
}

type t816 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 lgxtypes.CONTROL
	F9 bool
}

type Z_95 struct {
	F0 int32
	F1 bool
	F2 bool
}

type AB_12680 struct {
	F0 bool
	F1 Z_95
	F2 bool
	F3 bool
	F4 int16
}

type Motor_Run718 struct {
	F0 bool
	F1 bool
	F2 bool
}

type AB_12697 struct {
	F0 bool
	F1 Motor_Run718
	F2 bool
	F3 Z_95
}

type Z_395 struct {
	F0 int32
	F1 bool
	F2 bool
}

type PID_Loop963 struct {
	F0 bool
	F1 [2]Z_395
	F2 bool
	F3 bool
	F4 int16
}

type Z_625 struct {
	F0 bool
	F1 bool
	F2 bool
}

type Motor_Run223 struct {
	F0 bool
	F1 [2]Z_625
	F2 bool
	F3 [2]Z_395
}

type Valve2Way904 struct {
	F0 float32
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type UDT152 struct {
	F0  uint32
	F1  int16
	F2  bool
	F3  bool
	F4  [107]uint16
	F5  bool
	F6  int32
	F7  int8
	F8  float64
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 [9]float32
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 [73]int16
	F35 UDT444
}

type AB_12104 struct {
	F0  Z_95
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 Z_95
}

type Pump305 struct {
	F0  float64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
}

type PID_Loop658 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  int64
	F4  int64
	F5  int64
	F6  lgxtypes.COUNTER
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 Z_95
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 Z_746
	F36 [1]StationData846
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 float32
}

type X536 struct {
	F0  int64
	F1  [102]int16
	F2  uint64
	F3  [21]int32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 float32
	F22 int32
	F23 bool
	F24 int64
	F25 [33]float64
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 [117]float32
}

type Pump153 struct {
	F0 Valve2Way904
}

type StationData195 struct {
	F0 uint32
	F1 int16
}

type Motor_Run627 struct {
	F0 lgxtypes.TIMER
}

type Z_687 struct {
	F0 float64
	F1 lgxtypes.COUNTER
	F2 uint16
	F3 Motor_Run573
	F4 [1]recipeStep500
}

type Z_975 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 lgxtypes.COUNTER
	F4 Z_74
	F5 bool
}

type Pump469 struct {
	F0  [86]int32
	F1  uint64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type Valve2Way275 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  [9]int64
	F8  [2]Z_437
	F9  bool
	F10 bool
	F11 lgxtypes.CONTROL
	F12 float32
	F13 [8]int32
}

type Pump750 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  [71]uint16
	F7  [91]int16
	F8  [24]uint16
	F9  float32
	F10 [45]uint16
}

type X355 struct {
	F0 Motor_Run64
	F1 [3]Motor_Run586
	F2 float64
	F3 bool
	F4 bool
	F5 [3]X536
}

type Pump306 struct {
	F0  bool
	F1  int8
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 int64
	F11 [24]float32
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 int64
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 [65]int16
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
}

type Pump598 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 Pump406
	F18 uint64
	F19 lgxtypes.STRING
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 [107]float64
	F38 int32
	F39 Pump750
}

type Motor_Run700 struct {
	F0 Valve2Way92
	F1 bool
	F2 float32
	F3 int64
	F4 [103]own_celsius
	F5 [95]int16
	F6 [1]t381
	F7 uint64
}

type AB_12720 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  [62]own_code
	F7  [1]Motor_Run718
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 [115]uint16
	F34 Valve2Way74
	F35 bool
	F36 lgxtypes.STRING
	F37 [1]UDT444
	F38 [68]uint32
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
}

type PID_Loop309 struct {
	F0 int32
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type Valve2Way948 struct {
	F0 uint32
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type Valve2Way831 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 lgxtypes.CONTROL
	F30 bool
	F31 bool
	F32 bool
	F33 [35]uint32
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
}

type Z_949 struct {
	F0  PID_Loop963
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 uint16
}

type AB_12999 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
}

type Z_463 struct {
	F0  [62]uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
}

type Z_ struct {
	F0  [25]int32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 float64
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 float64
	F33 int16
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 [105]int8
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
}

type UDT229 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type Pump238 struct {
	F0 float32
	F1 bool
}

type PID_Loop782 struct {
	F0 [17]float64
}

type t267 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type t402 struct {
	F0  [39]uint16
	F1  Motor_Run64
	F2  [32]own_wide
	F3  [3]uint64
	F4  bool
	F5  bool
	F6  int8
	F7  uint64
	F8  bool
	F9  bool
	F10 bool
	F11 int64
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 [29]int8
}

type Z_904 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
}

type Valve2Way722 struct {
	F0  bool
	F1  [1]Z_625
	F2  [86]uint32
	F3  StationData846
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 [1]Motor_Run168
	F16 bool
	F17 bool
	F18 bool
}

type PID_Loop831 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type Z_801 struct {
	F0  int8
	F1  bool
	F2  [2]StationData195
	F3  AB_12697
	F4  uint16
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 PID_Loop970
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 [2]AB_12999
	F35 [2]lgxtypes.COUNTER
	F36 bool
	F37 bool
	F38 bool
	F39 lgxtypes.COUNTER
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
}

type Motor_Run493 struct {
	F0 uint64
}

type PID_Loop798 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  t210
	F9  [54]float32
	F10 bool
	F11 float64
}

type X157 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type AB_1251 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 [104]float32
	F4 [2]t381
	F5 StationData596
}

type Pump261 struct {
	F0  UDT444
	F1  bool
	F2  [100]int8
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [5]int32
}

type Motor_Run407 struct {
	F0  uint32
	F1  int16
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 [13]float64
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
}

type recipeStep400 struct {
	F0  [40]int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 StationData596
}

type X931 struct {
	F0  bool
	F1  [15]uint64
	F2  int32
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type X165 struct {
	F0 int32
}

type AB_12965 struct {
	F0 [2]AB_12720
	F1 lgxtypes.COUNTER
}

type Valve2Way153 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int32
	F18 int64
	F19 [28]own_count
}

type recipeStep93 struct {
	F0 [3]lgxtypes.TIMER
	F1 [50]float64
	F2 Valve2Way153
	F3 uint32
	F4 own_wide
	F5 float32
	F6 recipeStep500
	F7 bool
}

type Motor_Run906 struct {
	F0 [82]uint32
	F1 lgxtypes.TIMER
	F2 lgxtypes.COUNTER
	F3 bool
	F4 Pump238
}

type Z_514 struct {
	F0 Pump136
	F1 uint32
	F2 [42]uint16
}

type Valve2Way958 struct {
	F0 uint32
	F1 bool
}

type t338 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 Z_625
	F35 float64
	F36 uint16
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
}

type t427 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [105]uint16
	F18 uint32
	F19 uint16
}

type Valve2Way603 struct {
	F0 [1]Valve2Way92
	F1 bool
	F2 [67]int64
}

type UDT461 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type AB_12 struct {
	F0 uint64
}

type StationData864 struct {
	F0 float32
	F1 int32
	F2 [69]own_count
	F3 bool
	F4 [79]int64
	F5 bool
	F6 bool
	F7 uint64
	F8 [40]own_celsius
}

type UDT336 struct {
	F0 [3]X157
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 [71]float64
	F7 [1]Pump136
	F8 [2]Z_95
	F9 [1]StationData195
}

type Valve2Way struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 int8
}

type Motor_Run780 struct {
	F0 recipeStep500
	F1 [117]int8
	F2 bool
	F3 [19]int8
	F4 bool
}

type Motor_Run208 struct {
	F0 lgxtypes.TIMER
	F1 Motor_Run168
}

type PID_Loop488 struct {
	F0 bool
}

type Valve2Way359 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type Valve2Way531 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 t267
	F8 int8
}

type Pump97 struct {
	F0 [73]int16
	F1 [56]own_count
	F2 bool
}

type AB_12558 struct {
	F0 [2]lgxtypes.CONTROL
	F1 Pump97
	F2 [1]t816
	F3 [82]float32
	F4 lgxtypes.TIMER
	F5 uint64
	F6 t402
	F7 [1]Valve2Way904
}

type recipeStep534 struct {
	F0 bool
	F1 bool
	F2 [3]UDT444
}

type AB_12397 struct {
	F0  Pump97
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 int32
	F11 bool
	F12 bool
	F13 [97]int32
	F14 float64
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 Valve2Way359
	F23 bool
	F24 bool
	F25 bool
	F26 bool
}

type AB_12145 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type Valve2Way409 struct {
	F0 [32]uint64
	F1 int64
	F2 int64
	F3 uint32
	F4 bool
}

type StationData759 struct {
	F0  [55]int8
	F1  int32
	F2  [1]X355
	F3  PID_Loop595
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 [74]int64
	F23 uint32
}

type AB_1262 struct {
	F0 [3]Motor_Run64
	F1 uint16
}

type t229 struct {
	F0 uint32
}

type Pump818 struct {
	F0  uint64
	F1  [119]int64
	F2  int32
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 [71]float32
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 float32
}

type X struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 uint32
}

type recipeStep143 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type StationData752 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 [13]int64
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 [3]lgxtypes.TIMER
	F39 uint16
	F40 bool
	F41 bool
	F42 int16
	F43 [30]float32
	F44 [60]float32
	F45 bool
}

type X651 struct {
	F0 uint16
	F1 int16
}

type PID_Loop338 struct {
	F0 bool
}

type recipeStep413 struct {
	F0  int64
	F1  uint32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 uint32
	F19 uint16
}

type Pump567 struct {
	F0 Z_746
	F1 recipeStep413
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type PID_Loop103 struct {
	F0  int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 float64
	F11 int16
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type X575 struct {
	F0 Motor_Run573
	F1 Valve2Way275
}

type Motor_Run431 struct {
	F0  [1]X536
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 own_celsius
}

type recipeStep730 struct {
	F0 Valve2Way74
	F1 int32
	F2 float32
	F3 bool
	F4 own_celsius
	F5 Motor_Run586
	F6 [1]PID_Loop963
	F7 [94]int8
}

type recipeStep743 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 uint16
	F18 [1]Valve2Way74
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type StationData790 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  uint64
	F4  float32
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  int8
	F10 bool
	F11 uint16
	F12 float32
	F13 bool
	F14 int64
	F15 bool
	F16 uint16
	F17 [50]int16
}

type StationData193 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 float32
}

type recipeStep529 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
}

type recipeStep806 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type t34 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type Pump48 struct {
	F0  Pump750
	F1  bool
	F2  bool
	F3  bool
	F4  int32
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 uint64
	F34 Valve2Way92
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 recipeStep500
	F54 bool
}

type Z_374 struct {
	F0  float32
	F1  bool
	F2  bool
	F3  Z_254
	F4  float32
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 [31]int8
	F16 int32
	F17 [3]Z_74
	F18 [2]StationData846
	F19 [1]Motor_Run407
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
}

type Valve2Way26 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [112]uint64
}

type UDT struct {
	F0 [1]t210
	F1 [116]int32
	F2 [3]PID_Loop595
	F3 int64
	F4 t210
}

type Pump966 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 float32
}

type X184 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
}

type Pump110 struct {
	F0  bool
	F1  bool
	F2  lgxtypes.STRING
	F3  [1]lgxtypes.COUNTER
	F4  [9]float64
	F5  own_code
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 recipeStep806
	F24 bool
	F25 own_code
	F26 float32
	F27 [2]Pump966
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
}

type AB_12978 struct {
	F0 [103]int8
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
}

type AB_12613 struct {
	F0 bool
	F1 bool
}

type Valve2Way611 struct {
	F0 [57]int16
	F1 [16]float64
	F2 [1]lgxtypes.STRING
	F3 t816
	F4 [3]PID_Loop782
}

type PID_Loop struct {
	F0 bool
	F1 lgxtypes.COUNTER
	F2 Valve2Way531
	F3 lgxtypes.STRING
	F4 [3]recipeStep945
}

type Motor_Run546 struct {
	F0  float64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  own_count
	F9  float32
	F10 int8
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type t226 struct {
	F0 bool
	F1 Pump750
	F2 bool
	F3 bool
	F4 float32
}

type Valve2Way361 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  float32
	F8  [2]lgxtypes.COUNTER
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type Motor_Run463 struct {
	F0  [2]Motor_Run718
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  [85]own_wide
	F6  [1]Z_625
	F7  bool
	F8  int64
	F9  float64
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [53]int16
	F21 uint64
	F22 [3]t267
}

type Valve2Way188 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 int8
	F16 lgxtypes.STRING
}

type Pump578 struct {
	F0 lgxtypes.STRING
	F1 [118]int64
	F2 [2]Valve2Way74
}

type Pump359 struct {
	F0 Motor_Run780
	F1 uint64
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type StationData574 struct {
	F0 own_code
}

type Motor_Run325 struct {
	F0 recipeStep93
	F1 uint32
}

type PID_Loop706 struct {
	F0 lgxtypes.TIMER
}

type X643 struct {
	F0  Valve2Way684
	F1  int64
	F2  [24]own_celsius
	F3  bool
	F4  [1]float64
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  float32
	F10 lgxtypes.COUNTER
	F11 int32
	F12 own_celsius
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 int8
	F30 int32
}

type Z_242 struct {
	F0  float32
	F1  [29]int8
	F2  int8
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [116]float32
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 [87]int64
	F48 int8
	F49 [23]uint64
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type recipeStep247 struct {
	F0 bool
}

type UDT361 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 float32
}

type X399 struct {
	F0  uint16
	F1  t381
	F2  PID_Loop488
	F3  recipeStep358
	F4  float64
	F5  bool
	F6  [110]uint64
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
}

type PID_Loop69 struct {
	F0 int64
}

type X408 struct {
	F0 lgxtypes.COUNTER
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
}

type Pump716 struct {
	F0 int32
	F1 [2]AB_12
	F2 lgxtypes.STRING
}

type Motor_Run623 struct {
	F0 recipeStep413
	F1 bool
	F2 bool
	F3 bool
}

type X40 struct {
	F0 [6]uint64
	F1 bool
	F2 bool
	F3 bool
}

type PID_Loop43 struct {
	F0 int64
	F1 uint64
	F2 int16
}

type PID_Loop520 struct {
	F0  int8
	F1  [2]lgxtypes.TIMER
	F2  int64
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type UDT834 struct {
	F0  int32
	F1  [90]float64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [8]uint32
	F21 [40]float32
	F22 [31]own_wide
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
}

type AB_12113 struct {
	F0  int32
	F1  int64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
}

type Z_734 struct {
	F0  [42]uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
}

type StationData948 struct {
	F0  [63]float32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 Motor_Run407
	F25 int64
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 [1]Motor_Run407
}

type recipeStep139 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 [24]uint32
}

type Valve2Way161 struct {
	F0 [1]Valve2Way92
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 t338
}

type recipeStep9 struct {
	F0 [89]int32
	F1 own_celsius
	F2 PID_Loop595
	F3 [108]float64
	F4 [85]own_wide
}

type UDT259 struct {
	F0  bool
	F1  bool
	F2  int64
	F3  uint64
	F4  UDT152
	F5  X249
	F6  [3]lgxtypes.CONTROL
	F7  [74]uint32
	F8  uint32
	F9  int64
	F10 own_code
	F11 int64
	F12 int32
	F13 [3]recipeStep358
}

type Z_586 struct {
	F0 bool
	F1 bool
	F2 bool
}

type PID_Loop450 struct {
	F0 uint64
}

type Z_819 struct {
	F0  int16
	F1  float32
	F2  [1]Motor_Run573
	F3  int8
	F4  [6]own_count
	F5  [18]int16
	F6  uint32
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 lgxtypes.TIMER
	F15 [2]lgxtypes.CONTROL
	F16 [78]uint32
	F17 int64
	F18 bool
	F19 bool
	F20 [75]int8
}

type X256 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 t34
}

type StationData915 struct {
	F0  [2]lgxtypes.TIMER
	F1  bool
	F2  own_celsius
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 lgxtypes.STRING
	F21 Z_374
	F22 [3]AB_12
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
}

type PID_Loop687 struct {
	F0  [105]float32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 [3]int8
}

type Motor_Run792 struct {
	F0 bool
	F1 [73]int32
	F2 [3]UDT834
}

type X7 struct {
	F0  [102]int64
	F1  Pump48
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  uint32
	F10 Motor_Run627
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 float64
	F19 bool
	F20 bool
}

type Z_793 struct {
	F0 int32
	F1 [93]float64
	F2 own_count
	F3 [23]uint32
}

type Z_617 struct {
	F0 uint32
	F1 [2]UDT834
	F2 bool
	F3 [3]uint64
}

type Valve2Way696 struct {
	F0  [31]int32
	F1  [104]uint32
	F2  [35]int8
	F3  uint32
	F4  [2]recipeStep500
	F5  uint64
	F6  [3]lgxtypes.CONTROL
	F7  lgxtypes.STRING
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [2]Pump750
	F18 [54]uint32
	F19 bool
	F20 bool
	F21 uint32
}

type Z_934 struct {
	F0  uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 lgxtypes.CONTROL
	F28 float64
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 [33]own_wide
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 int32
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type UDT904 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 uint64
	F13 int64
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 [64]int32
	F39 int32
	F40 [2]lgxtypes.TIMER
	F41 float32
}

type X553 struct {
	F0  [2]AB_12553
	F1  [120]int8
	F2  [1]lgxtypes.COUNTER
	F3  [3]Z_746
	F4  bool
	F5  uint64
	F6  StationData596
	F7  [81]int8
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 own_code
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 recipeStep
}

type recipeStep668 struct {
	F0 uint32
	F1 UDT444
	F2 bool
	F3 bool
	F4 t381
	F5 [23]own_code
	F6 bool
	F7 bool
	F8 int8
}

type Pump513 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  uint16
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 uint64
	F16 Pump567
}

type AB_12693 struct {
	F0  int64
	F1  [80]int8
	F2  float32
	F3  [74]own_wide
	F4  int64
	F5  lgxtypes.STRING
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
}

type Z_356 struct {
	F0 uint16
}

type Valve2Way257 struct {
	F0  [19]own_code
	F1  int64
	F2  [85]int8
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 Motor_Run64
}

type StationData678 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type StationData637 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  int32
	F10 [88]float32
}

type AB_12854 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type AB_12380 struct {
	F0 own_count
}

type Valve2Way922 struct {
	F0  uint16
	F1  uint16
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [80]uint32
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
}

type AB_1288 struct {
	F0  [3]lgxtypes.STRING
	F1  recipeStep806
	F2  float32
	F3  bool
	F4  int64
	F5  [88]uint32
	F6  lgxtypes.TIMER
	F7  bool
	F8  [64]own_count
	F9  [88]uint32
	F10 [89]int32
	F11 StationData637
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
}

type StationData206 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 int8
	F4 bool
	F5 bool
	F6 Pump966
}

type Z_726 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
}

type PID_Loop321 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
}

type Pump878 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [29]uint16
	F18 bool
	F19 bool
	F20 float32
	F21 bool
	F22 bool
}

type t14 struct {
	F0 bool
}

type Long_Name_Of_A_Structure_Type_Of_40_Chr struct {
	F0 [29]uint16
	F1 lgxtypes.COUNTER
	F2 bool
	F3 bool
	F4 int16
	F5 Motor_Run493
}

type AB_12861 struct {
	F0 bool
	F1 [1]Z_374
	F2 bool
	F3 bool
	F4 recipeStep9
}

type recipeStep656 struct {
	F0 t381
	F1 bool
}

type Pump125 struct {
	F0 int32
	F1 int16
}

type recipeStep800 struct {
	F0 X408
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type Motor_Run481 struct {
	F0 bool
	F1 bool
	F2 bool
}

type AB_1296 struct {
	F0  t381
	F1  [75]int8
	F2  bool
	F3  [43]float32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 lgxtypes.STRING
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 own_celsius
	F33 uint32
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
}

type Motor_Run251 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type Z_718 struct {
	F0  int64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 X536
	F19 own_celsius
}

type StationData583 struct {
	F0 [97]uint16
	F1 X651
}

type UDT345 struct {
	F0 [32]float64
}

type AB_12830 struct {
	F0 bool
}

type PID_Loop999 struct {
	F0  [2]recipeStep9
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 [45]int64
	F20 bool
	F21 bool
}

type Motor_Run651 struct {
	F0 uint32
}

type PID_Loop508 struct {
	F0 [47]int16
	F1 float32
}

type AB_12607 struct {
	F0 lgxtypes.TIMER
	F1 int32
	F2 float64
}

type Pump618 struct {
	F0  [2]Pump261
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [64]int8
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 lgxtypes.CONTROL
	F28 lgxtypes.TIMER
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 uint16
}

type Z_558 struct {
	F0 uint16
}

type t343 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type AB_12154 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  int64
	F10 [106]uint64
}

type Z_897 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 Z_904
}

type UDT590 struct {
	F0  [1]Pump716
	F1  [23]int64
	F2  uint32
	F3  float64
	F4  [97]uint64
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 [3]PID_Loop706
	F26 Motor_Run64
	F27 Motor_Run546
	F28 [113]int16
	F29 int32
	F30 own_code
	F31 [120]int32
}

type PID_Loop298 struct {
	F0 [3]Valve2Way359
}

type AB_12853 struct {
	F0 uint64
}

type Pump994 struct {
	F0  lgxtypes.CONTROL
	F1  [1]StationData195
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type recipeStep368 struct {
	F0  Pump598
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 AB_12
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 Motor_Run651
	F37 recipeStep413
	F38 bool
	F39 bool
	F40 bool
	F41 lgxtypes.STRING
	F42 [2]lgxtypes.STRING
	F43 [81]float32
	F44 [3]lgxtypes.CONTROL
}

type X990 struct {
	F0 Motor_Run573
	F1 lgxtypes.STRING
}

type X870 struct {
	F0  [52]uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 lgxtypes.COUNTER
	F11 [95]uint16
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 own_celsius
	F20 PID_Loop687
	F21 [94]int32
}

type UDT368 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 t229
	F4 [3]X651
	F5 [9]float64
	F6 bool
	F7 bool
}

type t826 struct {
	F0  AB_12558
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 [36]float32
}

type recipeStep235 struct {
	F0 uint16
}

type Valve2Way977 struct {
	F0  [3]lgxtypes.TIMER
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
}

type UDT194 struct {
	F0 bool
	F1 lgxtypes.CONTROL
	F2 [83]int32
	F3 float32
}

type StationData858 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 int64
}

type recipeStep157 struct {
	F0  [3]lgxtypes.TIMER
	F1  bool
	F2  bool
	F3  float64
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 uint32
	F12 bool
	F13 int8
	F14 lgxtypes.TIMER
}

type Valve2Way100 struct {
	F0  Pump136
	F1  Valve2Way922
	F2  PID_Loop595
	F3  [50]uint16
	F4  uint16
	F5  AB_12613
	F6  lgxtypes.COUNTER
	F7  lgxtypes.COUNTER
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 [105]int16
	F27 [114]int16
	F28 [3]StationData637
	F29 int64
}

type Z_667 struct {
	F0 recipeStep668
	F1 lgxtypes.TIMER
}

type Motor_Run569 struct {
	F0  [84]float32
	F1  [64]int16
	F2  int8
	F3  bool
	F4  bool
	F5  own_celsius
	F6  [1]Pump406
	F7  int64
	F8  [3]lgxtypes.STRING
	F9  bool
	F10 int16
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 lgxtypes.TIMER
}

type UDT466 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 int16
	F17 float32
	F18 bool
	F19 [24]float32
	F20 bool
	F21 bool
	F22 int16
	F23 own_count
	F24 recipeStep500
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 [25]own_celsius
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type recipeStep391 struct {
	F0 [98]int16
	F1 t228
	F2 [117]int8
	F3 bool
	F4 bool
	F5 bool
	F6 uint16
}

type AB_1213 struct {
	F0 float32
	F1 uint32
}

type Valve2Way375 struct {
	F0  bool
	F1  bool
	F2  int8
	F3  lgxtypes.CONTROL
	F4  lgxtypes.TIMER
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type PID_Loop294 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 int16
}

type StationData370 struct {
	F0 bool
	F1 [57]int32
	F2 int64
	F3 bool
	F4 bool
	F5 bool
	F6 int32
	F7 uint16
	F8 bool
}

type AB_12418 struct {
	F0 float64
	F1 [99]int16
}

type AB_12184 struct {
	F0  bool
	F1  AB_12
	F2  [1]Motor_Run586
	F3  AB_1296
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
}

type AB_12873 struct {
	F0 own_code
	F1 int16
}

type StationData893 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
}

type StationData534 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [3]Motor_Run168
	F9  Valve2Way359
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 [1]Valve2Way922
	F29 [59]float32
	F30 bool
	F31 uint64
	F32 [9]float32
	F33 int16
	F34 uint64
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
}

type Z_521 struct {
	F0  [1]Pump878
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [2]lgxtypes.CONTROL
	F11 bool
	F12 bool
	F13 bool
	F14 float32
}

type UDT382 struct {
	F0 own_wide
	F1 [83]float32
	F2 [47]uint32
	F3 int32
	F4 [59]int16
	F5 int32
	F6 [41]int16
	F7 own_wide
}

type Motor_Run struct {
	F0  t402
	F1  [107]uint16
	F2  X157
	F3  PID_Loop970
	F4  [86]uint32
	F5  [1]lgxtypes.COUNTER
	F6  [59]float64
	F7  [31]uint16
	F8  [1]AB_12154
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [1]Motor_Run792
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 lgxtypes.CONTROL
	F35 Valve2Way904
}

type X542 struct {
	F0 bool
}

type Valve2Way785 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 float64
	F17 float64
	F18 bool
	F19 [49]uint16
	F20 uint16
	F21 [95]own_wide
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 [2]lgxtypes.CONTROL
	F30 int32
	F31 [30]int16
	F32 [2]AB_12113
	F33 Pump261
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
}

type X630 struct {
	F0  X536
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type UDT609 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [70]uint64
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 uint64
	F28 bool
	F29 bool
	F30 bool
	F31 t338
	F32 uint16
	F33 [9]int8
}

type Pump84 struct {
	F0 [9]int32
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
}

type recipeStep765 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
}

type X955 struct {
	F0  bool
	F1  [2]Z_74
	F2  bool
	F3  [102]uint32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 PID_Loop595
	F31 lgxtypes.STRING
	F32 bool
	F33 bool
	F34 [3]lgxtypes.COUNTER
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 lgxtypes.COUNTER
	F45 uint64
}

type StationData545 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type Pump242 struct {
	F0  bool
	F1  bool
	F2  [38]float32
	F3  uint16
	F4  t210
	F5  bool
	F6  bool
	F7  [91]uint16
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 [78]uint16
}

type Motor_Run735 struct {
	F0 StationData637
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type Valve2Way371 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  int16
	F10 own_count
	F11 uint64
	F12 lgxtypes.STRING
	F13 lgxtypes.CONTROL
	F14 [59]own_code
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 [85]own_code
	F41 [51]int8
	F42 bool
	F43 float64
	F44 uint64
}

type Z_206 struct {
	F0 own_wide
	F1 uint16
}

type Valve2Way788 struct {
	F0  bool
	F1  bool
	F2  Valve2Way371
	F3  lgxtypes.COUNTER
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 uint32
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 own_celsius
	F29 StationData596
	F30 [1]lgxtypes.TIMER
	F31 [2]Z_521
	F32 Valve2Way958
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
}

type t758 struct {
	F0  PID_Loop595
	F1  Valve2Way904
	F2  [3]lgxtypes.CONTROL
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 own_count
	F23 PID_Loop963
	F24 Valve2Way977
	F25 [112]float32
	F26 StationData206
	F27 lgxtypes.COUNTER
	F28 own_celsius
	F29 bool
	F30 [2]recipeStep945
}

type recipeStep751 struct {
	F0 float32
	F1 [81]float32
}

type UDT964 struct {
	F0  PID_Loop595
	F1  int16
	F2  int64
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 int16
	F11 uint64
	F12 bool
	F13 [68]float64
}

type t struct {
	F0 bool
	F1 [2]UDT336
	F2 float64
	F3 bool
}

type Pump1 struct {
	F0  bool
	F1  recipeStep358
	F2  [1]t267
	F3  int64
	F4  int32
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 lgxtypes.CONTROL
	F15 [28]float32
	F16 bool
	F17 lgxtypes.COUNTER
	F18 [33]int32
	F19 bool
	F20 [3]recipeStep358
	F21 uint16
}

type PID_Loop885 struct {
	F0  bool
	F1  X256
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 [3]recipeStep93
	F14 [2]Pump966
	F15 [21]float32
	F16 bool
	F17 bool
	F18 [38]float32
	F19 X542
	F20 int64
	F21 int64
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 UDT
}

type t224 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 X536
	F18 int32
	F19 uint32
}

type UDT824 struct {
	F0  StationData790
	F1  [18]int8
	F2  uint16
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 lgxtypes.STRING
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 own_wide
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type Motor_Run737 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
}

type Valve2Way893 struct {
	F0 own_count
	F1 [96]uint64
}

type StationData589 struct {
	F0  bool
	F1  [1]Pump153
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  uint32
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 [87]int32
	F27 bool
	F28 lgxtypes.TIMER
	F29 float32
}

type Pump370 struct {
	F0 [82]uint64
	F1 [7]float64
	F2 int32
	F3 [103]float64
}

type X559 struct {
	F0  uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 recipeStep751
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 lgxtypes.TIMER
	F22 Pump567
	F23 uint32
}

type Valve2Way4 struct {
	F0 Z_718
	F1 Valve2Way904
	F2 [54]float64
}

type StationData struct {
	F0  [36]uint64
	F1  float32
	F2  [64]uint16
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
}

type UDT627 struct {
	F0  float32
	F1  [88]float32
	F2  [1]Valve2Way409
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 uint64
	F20 [3]PID_Loop970
	F21 [11]int8
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 uint32
	F40 Z_395
	F41 float64
	F42 bool
	F43 bool
	F44 bool
	F45 int8
}

type recipeStep126 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  int16
	F9  int8
	F10 [60]float64
	F11 X249
	F12 [41]int32
	F13 Valve2Way922
	F14 [48]own_wide
	F15 lgxtypes.COUNTER
	F16 bool
	F17 bool
	F18 [3]Pump750
	F19 [3]Z_746
	F20 bool
}

type t10 struct {
	F0  uint32
	F1  int32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
}

type recipeStep709 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [108]int16
	F17 int8
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
}

type Motor_Run714 struct {
	F0 int32
	F1 bool
	F2 bool
	F3 int64
	F4 [113]uint32
	F5 int8
}

type Valve2Way677 struct {
	F0 lgxtypes.COUNTER
}

type X374 struct {
	F0 uint64
}

type X152 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type Z_439 struct {
	F0  [40]int16
	F1  int8
	F2  [18]int8
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
}

type Motor_Run80 struct {
	F0  [3]lgxtypes.TIMER
	F1  int32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type Motor_Run196 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 lgxtypes.COUNTER
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 int8
	F27 int32
	F28 lgxtypes.CONTROL
	F29 [14]int64
	F30 [86]uint16
	F31 [116]int64
	F32 [53]own_code
	F33 [2]Z_439
	F34 [52]uint64
	F35 bool
}

type AB_12712 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [13]float32
	F17 own_wide
	F18 bool
	F19 [88]own_count
	F20 own_celsius
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
}

type Motor_Run3 struct {
	F0  [57]int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int32
	F18 [15]uint64
}

type recipeStep766 struct {
	F0 [2]AB_12873
}

type recipeStep369 struct {
	F0  recipeStep126
	F1  lgxtypes.COUNTER
	F2  bool
	F3  bool
	F4  [48]float64
	F5  [36]int32
	F6  int32
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 lgxtypes.COUNTER
	F20 float64
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 [2]AB_1296
	F30 bool
	F31 bool
	F32 float32
}

type recipeStep888 struct {
	F0 bool
	F1 bool
	F2 AB_12853
	F3 uint16
	F4 [53]own_code
	F5 [2]lgxtypes.STRING
	F6 bool
	F7 float32
	F8 bool
}

type Pump912 struct {
	F0 [83]int32
	F1 bool
	F2 recipeStep529
}

type recipeStep695 struct {
	F0 [101]int16
	F1 bool
	F2 bool
	F3 bool
	F4 uint16
	F5 int8
}

type StationData243 struct {
	F0 [75]int64
	F1 bool
	F2 bool
	F3 float32
	F4 int8
	F5 int16
}

type UDT246 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [1]t381
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type Pump519 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [3]lgxtypes.STRING
	F17 [85]int64
	F18 [77]float64
	F19 [1]AB_12
	F20 lgxtypes.TIMER
	F21 bool
	F22 bool
	F23 [116]own_code
}

type UDT366 struct {
	F0  [2]Z_975
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int64
}

type UDT457 struct {
	F0 int16
	F1 uint32
	F2 uint32
	F3 [21]uint32
	F4 bool
}

type Pump483 struct {
	F0 bool
	F1 lgxtypes.CONTROL
	F2 [2]lgxtypes.COUNTER
	F3 [2]recipeStep695
}

type t687 struct {
	F0  bool
	F1  [83]int32
	F2  float64
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 [36]int64
}

type t344 struct {
	F0  Motor_Run546
	F1  int8
	F2  [79]float64
	F3  [109]own_celsius
	F4  bool
	F5  bool
	F6  float64
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
}

type Pump299 struct {
	F0 [3]Motor_Run64
}

type Pump233 struct {
	F0 bool
	F1 recipeStep751
	F2 int8
}

type t904 struct {
	F0 Pump878
}

type Valve2Way97 struct {
	F0  float32
	F1  lgxtypes.COUNTER
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type UDT202 struct {
	F0 [3]StationData864
	F1 [97]uint32
	F2 [64]uint64
	F3 bool
}

type X521 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [2]lgxtypes.CONTROL
	F18 int64
	F19 bool
	F20 [1]PID_Loop831
	F21 [87]uint64
	F22 lgxtypes.STRING
	F23 bool
}

type UDT600 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
}

type Pump661 struct {
	F0 int8
	F1 AB_12693
}

type t355 struct {
	F0 [100]int64
}

type X831 struct {
	F0 [83]uint16
}

type PID_Loop787 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [1]Pump567
	F18 bool
	F19 bool
	F20 bool
	F21 [1]Motor_Run325
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 lgxtypes.TIMER
	F34 lgxtypes.TIMER
	F35 bool
	F36 own_count
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 uint16
	F47 float32
}

type Motor_Run69 struct {
	F0  [2]lgxtypes.STRING
	F1  bool
	F2  int64
	F3  Z_95
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 StationData596
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 int32
	F22 Pump370
	F23 [83]int8
	F24 [57]float64
	F25 [17]own_celsius
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
}

type t513 struct {
	F0 lgxtypes.COUNTER
}

type Valve2Way569 struct {
	F0  [2]X553
	F1  int64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type Motor_Run840 struct {
	F0  bool
	F1  [119]float32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [20]int64
	F21 bool
	F22 [57]uint16
	F23 PID_Loop970
	F24 bool
	F25 uint64
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 float64
}

type Motor_Run65 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 uint64
	F4 bool
}

type t444 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  [74]uint16
	F4  [71]float64
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 [15]float64
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 X630
}

type AB_12179 struct {
	F0  Pump238
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int16
}

type Valve2Way435 struct {
	F0 int32
	F1 [85]int32
	F2 int8
}

type StationData569 struct {
	F0 uint16
	F1 int64
	F2 bool
}

type recipeStep274 struct {
	F0 [3]Z_254
}

type StationData344 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 Z_975
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
}

type Pump968 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 [11]uint64
	F24 float32
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
}

type recipeStep32 struct {
	F0  bool
	F1  float64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type X68 struct {
	F0  [92]float32
	F1  float64
	F2  [21]uint32
	F3  uint32
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 uint16
	F25 float32
	F26 int32
	F27 [88]int32
	F28 bool
	F29 bool
	F30 [43]float32
	F31 [108]int8
}

type Motor_Run870 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type Pump431 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 own_celsius
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 lgxtypes.COUNTER
	F30 bool
	F31 bool
	F32 Motor_Run251
	F33 uint64
	F34 [50]uint64
	F35 [70]int16
	F36 uint64
	F37 lgxtypes.TIMER
	F38 uint16
}

type StationData845 struct {
	F0  bool
	F1  lgxtypes.COUNTER
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 own_code
}

type AB_12546 struct {
	F0  X374
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 StationData534
	F11 Pump125
}

type X985 struct {
	F0  bool
	F1  bool
	F2  [117]uint16
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 uint32
	F12 [104]int16
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 float32
}

type Motor_Run137 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 [1]lgxtypes.COUNTER
	F4 [3]StationData243
}

type X648 struct {
	F0 float32
	F1 [106]int16
	F2 bool
	F3 [1]lgxtypes.TIMER
	F4 Motor_Run573
}

type Z_894 struct {
	F0  lgxtypes.COUNTER
	F1  [3]Pump716
	F2  uint16
	F3  lgxtypes.COUNTER
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 [3]Valve2Way92
	F12 [100]int8
	F13 bool
	F14 float64
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 [1]X68
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
}

type Motor_Run883 struct {
	F0  [44]uint64
	F1  int32
	F2  [2]Valve2Way531
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 [113]float32
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 StationData637
}

type Valve2Way570 struct {
	F0 int32
	F1 [1]uint64
	F2 Pump48
}

type Motor_Run226 struct {
	F0  uint16
	F1  [42]float32
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 uint16
	F20 int8
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 lgxtypes.COUNTER
	F38 [53]int16
}

type StationData767 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  uint64
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type Pump412 struct {
	F0  Valve2Way26
	F1  float64
	F2  uint32
	F3  Pump406
	F4  Pump238
	F5  own_code
	F6  lgxtypes.COUNTER
	F7  [116]float64
	F8  bool
	F9  bool
	F10 bool
	F11 uint16
	F12 bool
	F13 int8
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type StationData236 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [2]AB_12558
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 AB_1251
	F20 float64
	F21 bool
	F22 bool
	F23 bool
	F24 Motor_Run840
	F25 bool
}

type Valve2Way98 struct {
	F0  bool
	F1  uint32
	F2  bool
	F3  bool
	F4  [27]uint32
	F5  uint64
	F6  bool
	F7  uint64
	F8  uint64
	F9  lgxtypes.COUNTER
	F10 [99]uint32
	F11 [34]int32
	F12 int64
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 uint16
}

type AB_12465 struct {
	F0 [1]Z_746
	F1 [48]int32
	F2 [3]StationData193
}

type Z_137 struct {
	F0  uint16
	F1  int64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  lgxtypes.CONTROL
	F10 [3]Z_904
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 [1]Valve2Way359
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type PID_Loop358 struct {
	F0  [119]int64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
}

type recipeStep152 struct {
	F0 [81]float64
	F1 [3]Pump48
	F2 bool
	F3 bool
	F4 bool
}

type Valve2Way791 struct {
	F0  Valve2Way893
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 [11]uint32
}

type UDT963 struct {
	F0 recipeStep500
}

type PID_Loop721 struct {
	F0  int16
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [88]own_celsius
	F19 [120]float32
	F20 float64
	F21 [23]own_code
	F22 int16
}

type AB_12277 struct {
	F0 [119]uint16
}

type Valve2Way919 struct {
	F0  Valve2Way684
	F1  bool
	F2  AB_12418
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
}

type Motor_Run663 struct {
	F0 [14]int8
	F1 [99]int32
	F2 float64
	F3 int64
}

type Pump489 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [67]int8
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type Motor_Run331 struct {
	F0  t513
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 own_count
	F29 lgxtypes.TIMER
	F30 uint32
	F31 float64
	F32 bool
	F33 uint64
	F34 [55]int16
	F35 uint64
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
}

type X375 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 bool
}

type PID_Loop260 struct {
	F0 [7]uint16
	F1 int64
}

type recipeStep19 struct {
	F0  lgxtypes.STRING
	F1  bool
	F2  lgxtypes.CONTROL
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 lgxtypes.STRING
	F21 recipeStep765
	F22 [104]float32
	F23 lgxtypes.COUNTER
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 uint32
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type StationData922 struct {
	F0 uint32
	F1 int64
	F2 bool
	F3 bool
	F4 bool
}

type X454 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 uint16
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
}

type Valve2Way660 struct {
	F0 [105]uint64
	F1 Z_254
}

type X935 struct {
	F0 StationData243
	F1 bool
	F2 bool
	F3 bool
}

type PID_Loop807 struct {
	F0  lgxtypes.COUNTER
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  Z_625
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 lgxtypes.CONTROL
	F22 uint32
}

type t698 struct {
	F0  int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 [63]uint32
	F52 int16
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type recipeStep669 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
}

type StationData247 struct {
	F0 [1]Valve2Way893
	F1 Valve2Way409
	F2 bool
}

type StationData813 struct {
	F0  [94]float32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [2]recipeStep945
	F9  bool
	F10 [2]lgxtypes.TIMER
}

type t99 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  uint16
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 own_code
	F24 int16
	F25 lgxtypes.TIMER
}

type AB_12148 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type UDT10 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  int8
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 [41]uint32
	F17 uint32
	F18 lgxtypes.CONTROL
	F19 [10]uint16
	F20 uint64
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type Z_4 struct {
	F0 lgxtypes.STRING
	F1 float64
}

type t238 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 uint32
	F17 [80]float64
	F18 bool
	F19 float64
	F20 [2]Pump878
	F21 int8
	F22 [16]int16
}

type StationData941 struct {
	F0 [117]float64
	F1 Z_558
	F2 [109]int64
	F3 [1]lgxtypes.CONTROL
	F4 int64
	F5 [1]AB_12
	F6 bool
	F7 bool
	F8 bool
	F9 bool
}

type Pump418 struct {
	F0  int32
	F1  int8
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 recipeStep766
	F36 [2]t698
	F37 [1]PID_Loop358
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 Pump125
	F47 [2]AB_12965
	F48 bool
	F49 own_code
	F50 PID_Loop309
}

type Valve2Way262 struct {
	F0  [1]Z_254
	F1  [3]recipeStep126
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
}

type PID_Loop608 struct {
	F0  uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
}

type Z_241 struct {
	F0 [13]int16
}

type PID_Loop178 struct {
	F0  [67]float32
	F1  float64
	F2  own_celsius
	F3  own_wide
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 int8
	F13 int32
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
}

type Pump269 struct {
	F0 [2]Valve2Way922
}

type recipeStep486 struct {
	F0 int16
	F1 [30]float32
}

type Motor_Run762 struct {
	F0  float32
	F1  bool
	F2  [72]int16
	F3  bool
	F4  bool
	F5  uint64
	F6  uint64
	F7  int16
	F8  AB_1213
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 int32
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 [1]Z_904
}

type Pump828 struct {
	F0  Z_726
	F1  bool
	F2  float64
	F3  [2]Z_819
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
}

type X161 struct {
	F0 uint64
}

type Valve2Way123 struct {
	F0  [35]float64
	F1  [115]int16
	F2  [2]lgxtypes.TIMER
	F3  float32
	F4  lgxtypes.TIMER
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 lgxtypes.COUNTER
}

type X349 struct {
	F0 int32
	F1 recipeStep486
	F2 [1]Valve2Way26
}

type PID_Loop176 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  int64
	F9  uint32
	F10 [2]t687
	F11 [1]PID_Loop608
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 int16
	F21 bool
	F22 bool
	F23 own_celsius
	F24 bool
	F25 lgxtypes.COUNTER
	F26 uint32
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
}

type t593 struct {
	F0  PID_Loop178
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
}

type t194 struct {
	F0  lgxtypes.TIMER
	F1  int16
	F2  bool
	F3  bool
	F4  int32
	F5  [34]int64
	F6  uint32
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 UDT345
	F34 own_wide
	F35 [105]int32
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 own_count
}

type Valve2Way202 struct {
	F0  own_celsius
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 Valve2Way904
	F19 [2]PID_Loop999
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
}

type StationData712 struct {
	F0 uint64
	F1 int32
	F2 bool
	F3 bool
	F4 bool
	F5 bool
}

type Pump96 struct {
	F0  [31]uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [85]own_count
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type AB_12221 struct {
	F0 Valve2Way684
	F1 [3]lgxtypes.STRING
	F2 [94]uint64
	F3 int32
	F4 lgxtypes.TIMER
}

type Z_512 struct {
	F0  bool
	F1  bool
	F2  int16
	F3  uint16
	F4  StationData922
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
}

type recipeStep338 struct {
	F0  int16
	F1  [113]float32
	F2  uint32
	F3  bool
	F4  own_code
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 [53]int8
	F13 bool
	F14 bool
}

type recipeStep737 struct {
	F0 StationData893
	F1 [76]int64
}

type X560 struct {
	F0  t698
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  [118]int64
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
}

type Motor_Run833 struct {
	F0 float64
	F1 int16
}

type X272 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [1]X68
	F11 recipeStep765
}

type t108 struct {
	F0 bool
	F1 bool
	F2 bool
}

type Motor_Run260 struct {
	F0 [3]Motor_Run537
	F1 Z_206
	F2 float32
	F3 bool
	F4 bool
	F5 int8
}

type X467 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type UDT331 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 recipeStep338
	F5 [97]own_count
	F6 bool
}

type t786 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  own_celsius
	F9  [66]own_wide
	F10 [42]int16
	F11 [31]float64
	F12 int16
	F13 int64
	F14 [28]int8
}

type t887 struct {
	F0 [1]X408
}

type X628 struct {
	F0 int8
}

type recipeStep72 struct {
	F0  [13]int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 int64
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 [2]StationData206
	F21 int32
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 [20]own_code
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 int16
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 [98]int64
}

type Valve2Way362 struct {
	F0  [114]uint32
	F1  [39]uint32
	F2  bool
	F3  int64
	F4  float32
	F5  PID_Loop687
	F6  float32
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type X31 struct {
	F0 int64
}

type Motor_Run335 struct {
	F0  bool
	F1  own_wide
	F2  [19]own_celsius
	F3  [100]int16
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 [9]float32
}

type Z_795 struct {
	F0  bool
	F1  X374
	F2  [1]recipeStep338
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 int16
	F21 bool
	F22 lgxtypes.COUNTER
	F23 [85]int64
	F24 [54]float64
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 [35]int8
	F34 bool
	F35 bool
	F36 bool
	F37 bool
}

type Z_212 struct {
	F0 Pump966
}

type PID_Loop359 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 float32
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
}

type Motor_Run162 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
}

type recipeStep553 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  lgxtypes.CONTROL
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 X157
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 bool
}

type AB_12886 struct {
	F0 Motor_Run546
}

type Pump526 struct {
	F0  own_count
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 uint32
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 own_celsius
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 own_count
}

type Pump474 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  lgxtypes.CONTROL
	F8  float64
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
}

type PID_Loop875 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 float32
	F11 lgxtypes.STRING
	F12 [3]AB_12830
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 [120]int8
}

type UDT546 struct {
	F0  uint64
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [3]Motor_Run168
	F18 int64
	F19 [87]int32
}

type Valve2Way114 struct {
	F0  uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 uint64
}

type UDT854 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
}

type Motor_Run90 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [1]lgxtypes.STRING
	F18 float32
	F19 uint32
}

type PID_Loop189 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 [1]t210
	F24 float32
	F25 StationData846
	F26 [2]StationData712
	F27 bool
	F28 bool
	F29 bool
	F30 int32
	F31 uint16
	F32 Pump96
	F33 lgxtypes.CONTROL
	F34 bool
	F35 bool
	F36 [11]float64
}

type Motor_Run327 struct {
	F0 bool
	F1 bool
	F2 bool
}

type X981 struct {
	F0  int8
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [1]StationData767
	F19 PID_Loop706
	F20 [3]Z_
	F21 [110]float64
	F22 bool
	F23 [3]recipeStep358
}

type Motor_Run771 struct {
	F0  [2]Motor_Run537
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  lgxtypes.STRING
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 uint16
	F29 [48]float64
	F30 [117]own_celsius
	F31 [1]recipeStep766
	F32 uint64
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 int8
	F42 [3]Motor_Run168
	F43 [5]int64
}

type StationData901 struct {
	F0 [2]lgxtypes.TIMER
	F1 int16
	F2 lgxtypes.TIMER
	F3 own_celsius
}

type Pump90 struct {
	F0  int64
	F1  uint32
	F2  uint64
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 float32
	F30 [2]lgxtypes.CONTROL
	F31 [1]lgxtypes.COUNTER
	F32 [2]t338
	F33 [1]Motor_Run537
	F34 uint16
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 float64
}

type Pump478 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 own_count
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
}

type StationData978 struct {
	F0  [3]Valve2Way359
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 int32
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
}

type Pump217 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
}

type X66 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 int16
}

type AB_12849 struct {
	F0 [28]int64
	F1 [4]uint32
	F2 own_code
	F3 uint64
	F4 int64
}

type Z_792 struct {
	F0  uint32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
}

type Z_779 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 float32
	F18 uint16
	F19 bool
	F20 float64
}

type Z_967 struct {
	F0  Pump406
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 [3]t381
	F11 Pump406
	F12 [1]lgxtypes.COUNTER
}

type Z_447 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 float64
	F17 int32
	F18 Pump968
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
}

type recipeStep680 struct {
	F0  [33]int32
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 lgxtypes.CONTROL
}

type Motor_Run707 struct {
	F0 [1]uint64
	F1 bool
	F2 bool
	F3 uint32
}

type X937 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 lgxtypes.COUNTER
}

type AB_12131 struct {
	F0 bool
}

type t406 struct {
	F0  int8
	F1  uint16
	F2  bool
	F3  bool
	F4  bool
	F5  int16
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 uint32
	F24 lgxtypes.TIMER
	F25 bool
	F26 bool
	F27 bool
}

type AB_1268 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int32
	F18 own_count
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
}

type X105 struct {
	F0 [33]int32
	F1 lgxtypes.TIMER
}

type Motor_Run83 struct {
	F0 uint16
}

type UDT830 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
}

type PID_Loop409 struct {
	F0 uint16
}

type t527 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
}

type Long_Name_Of_A_Structure_Type_Of_40_Chr7 struct {
	F0  uint16
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 lgxtypes.STRING
	F18 int64
	F19 int8
}

type AB_12502 struct {
	F0 lgxtypes.TIMER
}

type t358 struct {
	F0 Pump97
	F1 uint16
	F2 [1]Pump526
	F3 Valve2Way922
}

type PID_Loop134 struct {
	F0 lgxtypes.STRING
	F1 Z_746
	F2 [1]recipeStep500
	F3 bool
}

type UDT40 struct {
	F0 [41]uint32
	F1 bool
	F2 bool
	F3 lgxtypes.CONTROL
	F4 [2]recipeStep93
	F5 bool
	F6 [37]int32
	F7 int64
	F8 int32
}

type UDT705 struct {
	F0  bool
	F1  bool
	F2  [1]AB_12873
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 [1]lgxtypes.CONTROL
	F23 lgxtypes.TIMER
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
}

type Valve2Way939 struct {
	F0  Z_254
	F1  bool
	F2  float64
	F3  int8
	F4  int32
	F5  Valve2Way359
	F6  [2]Motor_Run714
	F7  int8
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 [51]own_code
	F18 [3]lgxtypes.STRING
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
}

type AB_12931 struct {
	F0  [109]int32
	F1  float64
	F2  int32
	F3  int16
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
}

type PID_Loop961 struct {
	F0 [81]int16
	F1 bool
	F2 [66]int16
}

type Valve2Way803 struct {
	F0 uint64
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
	F8 Motor_Run137
}

type t537 struct {
	F0 [17]int32
}

type Pump80 struct {
	F0 [25]int16
}

type Valve2Way403 struct {
	F0  int16
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 uint64
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
}

type Z_896 struct {
	F0  float64
	F1  [51]uint64
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  [119]int8
	F9  own_code
	F10 float32
	F11 [25]uint32
	F12 [11]own_wide
	F13 uint32
	F14 [105]float32
	F15 int64
	F16 bool
	F17 bool
	F18 bool
}

type X577 struct {
	F0  float32
	F1  [115]int8
	F2  float64
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
}

type X681 struct {
	F0 t427
	F1 lgxtypes.CONTROL
}

type recipeStep621 struct {
	F0 bool
	F1 bool
	F2 bool
	F3 bool
	F4 bool
	F5 bool
	F6 bool
	F7 bool
}

type recipeStep360 struct {
	F0 [42]int8
	F1 uint64
}

type StationData107 struct {
	F0 [113]int32
	F1 lgxtypes.STRING
	F2 bool
	F3 int16
	F4 uint64
}

type UDT195 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 [47]int32
	F19 lgxtypes.CONTROL
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 recipeStep500
	F54 lgxtypes.COUNTER
	F55 bool
	F56 bool
	F57 int16
	F58 bool
	F59 int8
}

type Motor_Run725 struct {
	F0  int64
	F1  [86]int8
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 uint16
	F29 UDT382
	F30 uint32
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
}

type UDT701 struct {
	F0  int8
	F1  [11]uint16
	F2  [72]float32
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 uint64
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 int64
}

type PID_Loop443 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  Valve2Way153
	F10 float32
	F11 Pump469
	F12 float64
	F13 bool
	F14 lgxtypes.TIMER
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 [2]PID_Loop508
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 bool
	F42 int16
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 bool
	F52 bool
	F53 bool
	F54 bool
	F55 bool
	F56 bool
	F57 bool
	F58 bool
	F59 int32
}

type PID_Loop552 struct {
	F0 [118]uint64
	F1 bool
	F2 bool
}

type PID_Loop351 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  uint16
	F8  float64
	F9  uint16
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 bool
	F18 bool
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
}

type Z_940 struct {
	F0 bool
	F1 [50]int16
	F2 bool
	F3 bool
	F4 own_count
	F5 int64
}

type Z_5 struct {
	F0 int16
	F1 uint16
	F2 [1]Valve2Way922
}

type Pump143 struct {
	F0  bool
	F1  bool
	F2  bool
	F3  bool
	F4  bool
	F5  bool
	F6  bool
	F7  bool
	F8  bool
	F9  bool
	F10 bool
	F11 bool
	F12 bool
	F13 bool
	F14 bool
	F15 bool
	F16 bool
	F17 int64
	F18 [43]own_code
	F19 bool
	F20 bool
	F21 bool
	F22 bool
	F23 bool
	F24 bool
	F25 bool
	F26 bool
	F27 bool
	F28 bool
	F29 bool
	F30 bool
	F31 bool
	F32 bool
	F33 bool
	F34 bool
	F35 bool
	F36 bool
	F37 bool
	F38 bool
	F39 bool
	F40 bool
	F41 [1]Pump431
	F42 bool
	F43 bool
	F44 bool
	F45 bool
	F46 bool
	F47 bool
	F48 bool
	F49 bool
	F50 bool
	F51 PID_Loop552
	F52 [1]Pump406
	F53 bool
	F54 bool
	F55 bool
	F56 [30]int16
	F57 int32
}

type Pump307 struct {
	F0 X161
	F1 Pump306
}

type UDT733 struct {
	F0 bool
	F1 Valve2Way359
	F2 [104]uint32
}

var kinds = []any{
	recipeStep{},
	Valve2Way74{},
	StationData596{},
	Pump{},
	UDT444{},
	Valve2Way92{},
	StationData846{},
	t228{},
	PID_Loop970{},
	Pump406{},
	Pump136{},
	AB_12553{},
	Motor_Run573{},
	PID_Loop595{},
	t381{},
	Motor_Run64{},
	t210{},
	Z_437{},
	recipeStep945{},
	Z_254{},
	X249{},
	Motor_Run537{},
	Z_746{},
	Z_74{},
	Motor_Run168{},
	recipeStep500{},
	Valve2Way684{},
	Motor_Run586{},
	recipeStep358{},
	t816{},
	Z_95{},
	AB_12680{},
	Motor_Run718{},
	AB_12697{},
	Z_395{},
	PID_Loop963{},
	Z_625{},
	Motor_Run223{},
	Valve2Way904{},
	UDT152{},
	AB_12104{},
	Pump305{},
	PID_Loop658{},
	X536{},
	Pump153{},
	StationData195{},
	Motor_Run627{},
	Z_687{},
	Z_975{},
	Pump469{},
	Valve2Way275{},
	Pump750{},
	X355{},
	Pump306{},
	Pump598{},
	Motor_Run700{},
	AB_12720{},
	PID_Loop309{},
	Valve2Way948{},
	Valve2Way831{},
	Z_949{},
	AB_12999{},
	Z_463{},
	Z_{},
	UDT229{},
	Pump238{},
	PID_Loop782{},
	t267{},
	t402{},
	Z_904{},
	Valve2Way722{},
	PID_Loop831{},
	Z_801{},
	Motor_Run493{},
	PID_Loop798{},
	X157{},
	AB_1251{},
	Pump261{},
	Motor_Run407{},
	recipeStep400{},
	X931{},
	X165{},
	AB_12965{},
	Valve2Way153{},
	recipeStep93{},
	Motor_Run906{},
	Z_514{},
	Valve2Way958{},
	t338{},
	t427{},
	Valve2Way603{},
	UDT461{},
	AB_12{},
	StationData864{},
	UDT336{},
	Valve2Way{},
	Motor_Run780{},
	Motor_Run208{},
	PID_Loop488{},
	Valve2Way359{},
	Valve2Way531{},
	Pump97{},
	AB_12558{},
	recipeStep534{},
	AB_12397{},
	AB_12145{},
	Valve2Way409{},
	StationData759{},
	AB_1262{},
	t229{},
	Pump818{},
	X{},
	recipeStep143{},
	StationData752{},
	X651{},
	PID_Loop338{},
	recipeStep413{},
	Pump567{},
	PID_Loop103{},
	X575{},
	Motor_Run431{},
	recipeStep730{},
	recipeStep743{},
	StationData790{},
	StationData193{},
	recipeStep529{},
	recipeStep806{},
	t34{},
	Pump48{},
	Z_374{},
	Valve2Way26{},
	UDT{},
	Pump966{},
	X184{},
	Pump110{},
	AB_12978{},
	AB_12613{},
	Valve2Way611{},
	PID_Loop{},
	Motor_Run546{},
	t226{},
	Valve2Way361{},
	Motor_Run463{},
	Valve2Way188{},
	Pump578{},
	Pump359{},
	StationData574{},
	Motor_Run325{},
	PID_Loop706{},
	X643{},
	Z_242{},
	recipeStep247{},
	UDT361{},
	X399{},
	PID_Loop69{},
	X408{},
	Pump716{},
	Motor_Run623{},
	X40{},
	PID_Loop43{},
	PID_Loop520{},
	UDT834{},
	AB_12113{},
	Z_734{},
	StationData948{},
	recipeStep139{},
	Valve2Way161{},
	recipeStep9{},
	UDT259{},
	Z_586{},
	PID_Loop450{},
	Z_819{},
	X256{},
	StationData915{},
	PID_Loop687{},
	Motor_Run792{},
	X7{},
	Z_793{},
	Z_617{},
	Valve2Way696{},
	Z_934{},
	UDT904{},
	X553{},
	recipeStep668{},
	Pump513{},
	AB_12693{},
	Z_356{},
	Valve2Way257{},
	StationData678{},
	StationData637{},
	AB_12854{},
	AB_12380{},
	Valve2Way922{},
	AB_1288{},
	StationData206{},
	Z_726{},
	PID_Loop321{},
	Pump878{},
	t14{},
	Long_Name_Of_A_Structure_Type_Of_40_Chr{},
	AB_12861{},
	recipeStep656{},
	Pump125{},
	recipeStep800{},
	Motor_Run481{},
	AB_1296{},
	Motor_Run251{},
	Z_718{},
	StationData583{},
	UDT345{},
	AB_12830{},
	PID_Loop999{},
	Motor_Run651{},
	PID_Loop508{},
	AB_12607{},
	Pump618{},
	Z_558{},
	t343{},
	AB_12154{},
	Z_897{},
	UDT590{},
	PID_Loop298{},
	AB_12853{},
	Pump994{},
	recipeStep368{},
	X990{},
	X870{},
	UDT368{},
	t826{},
	recipeStep235{},
	Valve2Way977{},
	UDT194{},
	StationData858{},
	recipeStep157{},
	Valve2Way100{},
	Z_667{},
	Motor_Run569{},
	UDT466{},
	recipeStep391{},
	AB_1213{},
	Valve2Way375{},
	PID_Loop294{},
	StationData370{},
	AB_12418{},
	AB_12184{},
	AB_12873{},
	StationData893{},
	StationData534{},
	Z_521{},
	UDT382{},
	Motor_Run{},
	X542{},
	Valve2Way785{},
	X630{},
	UDT609{},
	Pump84{},
	recipeStep765{},
	X955{},
	StationData545{},
	Pump242{},
	Motor_Run735{},
	Valve2Way371{},
	Z_206{},
	Valve2Way788{},
	t758{},
	recipeStep751{},
	UDT964{},
	t{},
	Pump1{},
	PID_Loop885{},
	t224{},
	UDT824{},
	Motor_Run737{},
	Valve2Way893{},
	StationData589{},
	Pump370{},
	X559{},
	Valve2Way4{},
	StationData{},
	UDT627{},
	recipeStep126{},
	t10{},
	recipeStep709{},
	Motor_Run714{},
	Valve2Way677{},
	X374{},
	X152{},
	Z_439{},
	Motor_Run80{},
	Motor_Run196{},
	AB_12712{},
	Motor_Run3{},
	recipeStep766{},
	recipeStep369{},
	recipeStep888{},
	Pump912{},
	recipeStep695{},
	StationData243{},
	UDT246{},
	Pump519{},
	UDT366{},
	UDT457{},
	Pump483{},
	t687{},
	t344{},
	Pump299{},
	Pump233{},
	t904{},
	Valve2Way97{},
	UDT202{},
	X521{},
	UDT600{},
	Pump661{},
	t355{},
	X831{},
	PID_Loop787{},
	Motor_Run69{},
	t513{},
	Valve2Way569{},
	Motor_Run840{},
	Motor_Run65{},
	t444{},
	AB_12179{},
	Valve2Way435{},
	StationData569{},
	recipeStep274{},
	StationData344{},
	Pump968{},
	recipeStep32{},
	X68{},
	Motor_Run870{},
	Pump431{},
	StationData845{},
	AB_12546{},
	X985{},
	Motor_Run137{},
	X648{},
	Z_894{},
	Motor_Run883{},
	Valve2Way570{},
	Motor_Run226{},
	StationData767{},
	Pump412{},
	StationData236{},
	Valve2Way98{},
	AB_12465{},
	Z_137{},
	PID_Loop358{},
	recipeStep152{},
	Valve2Way791{},
	UDT963{},
	PID_Loop721{},
	AB_12277{},
	Valve2Way919{},
	Motor_Run663{},
	Pump489{},
	Motor_Run331{},
	X375{},
	PID_Loop260{},
	recipeStep19{},
	StationData922{},
	X454{},
	Valve2Way660{},
	X935{},
	PID_Loop807{},
	t698{},
	recipeStep669{},
	StationData247{},
	StationData813{},
	t99{},
	AB_12148{},
	UDT10{},
	Z_4{},
	t238{},
	StationData941{},
	Pump418{},
	Valve2Way262{},
	PID_Loop608{},
	Z_241{},
	PID_Loop178{},
	Pump269{},
	recipeStep486{},
	Motor_Run762{},
	Pump828{},
	X161{},
	Valve2Way123{},
	X349{},
	PID_Loop176{},
	t593{},
	t194{},
	Valve2Way202{},
	StationData712{},
	Pump96{},
	AB_12221{},
	Z_512{},
	recipeStep338{},
	recipeStep737{},
	X560{},
	Motor_Run833{},
	X272{},
	t108{},
	Motor_Run260{},
	X467{},
	UDT331{},
	t786{},
	t887{},
	X628{},
	recipeStep72{},
	Valve2Way362{},
	X31{},
	Motor_Run335{},
	Z_795{},
	Z_212{},
	PID_Loop359{},
	Motor_Run162{},
	recipeStep553{},
	AB_12886{},
	Pump526{},
	Pump474{},
	PID_Loop875{},
	UDT546{},
	Valve2Way114{},
	UDT854{},
	Motor_Run90{},
	PID_Loop189{},
	Motor_Run327{},
	X981{},
	Motor_Run771{},
	StationData901{},
	Pump90{},
	Pump478{},
	StationData978{},
	Pump217{},
	X66{},
	AB_12849{},
	Z_792{},
	Z_779{},
	Z_967{},
	Z_447{},
	recipeStep680{},
	Motor_Run707{},
	X937{},
	AB_12131{},
	t406{},
	AB_1268{},
	X105{},
	Motor_Run83{},
	UDT830{},
	PID_Loop409{},
	t527{},
	Long_Name_Of_A_Structure_Type_Of_40_Chr7{},
	AB_12502{},
	t358{},
	PID_Loop134{},
	UDT40{},
	UDT705{},
	Valve2Way939{},
	AB_12931{},
	PID_Loop961{},
	Valve2Way803{},
	t537{},
	Pump80{},
	Valve2Way403{},
	Z_896{},
	X577{},
	X681{},
	recipeStep621{},
	recipeStep360{},
	StationData107{},
	UDT195{},
	Motor_Run725{},
	UDT701{},
	PID_Loop443{},
	PID_Loop552{},
	PID_Loop351{},
	Z_940{},
	Z_5{},
	Pump143{},
	Pump307{},
	UDT733{},
}
