// Code generated by tools/gen_p25.py. DO NOT EDIT.

package main

import (
	"net/http"

	nm "github.com/shohruhadham/nanomux"
)

var p25Types = []p25Type{
	{0, func() interface{} { return p25T0{} }, func() interface{} { return &p25T0{} }},
	{1, func() interface{} { return p25T1{} }, func() interface{} { return &p25T1{} }},
	{2, func() interface{} { return p25T2{} }, func() interface{} { return &p25T2{} }},
	{3, func() interface{} { return p25T3{} }, func() interface{} { return &p25T3{} }},
	{4, func() interface{} { return p25T4{} }, func() interface{} { return &p25T4{} }},
	{5, func() interface{} { return p25T5{} }, func() interface{} { return &p25T5{} }},
	{6, func() interface{} { return p25T6{} }, func() interface{} { return &p25T6{} }},
	{7, func() interface{} { return p25T7{} }, func() interface{} { return &p25T7{} }},
	{8, func() interface{} { return p25T8{} }, func() interface{} { return &p25T8{} }},
	{9, func() interface{} { return p25T9{} }, func() interface{} { return &p25T9{} }},
	{10, func() interface{} { return p25T10{} }, func() interface{} { return &p25T10{} }},
	{11, func() interface{} { return p25T11{} }, func() interface{} { return &p25T11{} }},
	{12, func() interface{} { return p25T12{} }, func() interface{} { return &p25T12{} }},
	{13, func() interface{} { return p25T13{} }, func() interface{} { return &p25T13{} }},
	{14, func() interface{} { return p25T14{} }, func() interface{} { return &p25T14{} }},
	{15, func() interface{} { return p25T15{} }, func() interface{} { return &p25T15{} }},
	{16, func() interface{} { return p25T16{} }, func() interface{} { return &p25T16{} }},
	{17, func() interface{} { return p25T17{} }, func() interface{} { return &p25T17{} }},
	{18, func() interface{} { return p25T18{} }, func() interface{} { return &p25T18{} }},
	{19, func() interface{} { return p25T19{} }, func() interface{} { return &p25T19{} }},
	{20, func() interface{} { return p25T20{} }, func() interface{} { return &p25T20{} }},
	{21, func() interface{} { return p25T21{} }, func() interface{} { return &p25T21{} }},
	{22, func() interface{} { return p25T22{} }, func() interface{} { return &p25T22{} }},
	{23, func() interface{} { return p25T23{} }, func() interface{} { return &p25T23{} }},
	{24, func() interface{} { return p25T24{} }, func() interface{} { return &p25T24{} }},
	{25, func() interface{} { return p25T25{} }, func() interface{} { return &p25T25{} }},
	{26, func() interface{} { return p25T26{} }, func() interface{} { return &p25T26{} }},
	{27, func() interface{} { return p25T27{} }, func() interface{} { return &p25T27{} }},
	{28, func() interface{} { return p25T28{} }, func() interface{} { return &p25T28{} }},
	{29, func() interface{} { return p25T29{} }, func() interface{} { return &p25T29{} }},
	{30, func() interface{} { return p25T30{} }, func() interface{} { return &p25T30{} }},
	{31, func() interface{} { return p25T31{} }, func() interface{} { return &p25T31{} }},
	{32, func() interface{} { return p25T32{} }, func() interface{} { return &p25T32{} }},
	{33, func() interface{} { return p25T33{} }, func() interface{} { return &p25T33{} }},
	{34, func() interface{} { return p25T34{} }, func() interface{} { return &p25T34{} }},
	{35, func() interface{} { return p25T35{} }, func() interface{} { return &p25T35{} }},
	{36, func() interface{} { return p25T36{} }, func() interface{} { return &p25T36{} }},
	{37, func() interface{} { return p25T37{} }, func() interface{} { return &p25T37{} }},
	{38, func() interface{} { return p25T38{} }, func() interface{} { return &p25T38{} }},
	{39, func() interface{} { return p25T39{} }, func() interface{} { return &p25T39{} }},
	{40, func() interface{} { return p25T40{} }, func() interface{} { return &p25T40{} }},
	{41, func() interface{} { return p25T41{} }, func() interface{} { return &p25T41{} }},
	{42, func() interface{} { return p25T42{} }, func() interface{} { return &p25T42{} }},
	{43, func() interface{} { return p25T43{} }, func() interface{} { return &p25T43{} }},
	{44, func() interface{} { return p25T44{} }, func() interface{} { return &p25T44{} }},
	{45, func() interface{} { return p25T45{} }, func() interface{} { return &p25T45{} }},
	{46, func() interface{} { return p25T46{} }, func() interface{} { return &p25T46{} }},
	{47, func() interface{} { return p25T47{} }, func() interface{} { return &p25T47{} }},
	{48, func() interface{} { return p25T48{} }, func() interface{} { return &p25T48{} }},
	{49, func() interface{} { return p25T49{} }, func() interface{} { return &p25T49{} }},
	{50, func() interface{} { return p25T50{} }, func() interface{} { return &p25T50{} }},
	{51, func() interface{} { return p25T51{} }, func() interface{} { return &p25T51{} }},
	{52, func() interface{} { return p25T52{} }, func() interface{} { return &p25T52{} }},
	{53, func() interface{} { return p25T53{} }, func() interface{} { return &p25T53{} }},
	{54, func() interface{} { return p25T54{} }, func() interface{} { return &p25T54{} }},
	{55, func() interface{} { return p25T55{} }, func() interface{} { return &p25T55{} }},
	{56, func() interface{} { return p25T56{} }, func() interface{} { return &p25T56{} }},
	{57, func() interface{} { return p25T57{} }, func() interface{} { return &p25T57{} }},
	{58, func() interface{} { return p25T58{} }, func() interface{} { return &p25T58{} }},
	{59, func() interface{} { return p25T59{} }, func() interface{} { return &p25T59{} }},
	{60, func() interface{} { return p25T60{} }, func() interface{} { return &p25T60{} }},
	{61, func() interface{} { return p25T61{} }, func() interface{} { return &p25T61{} }},
	{62, func() interface{} { return p25T62{} }, func() interface{} { return &p25T62{} }},
	{63, func() interface{} { return p25T63{} }, func() interface{} { return &p25T63{} }},
	{64, func() interface{} { return p25T64{} }, func() interface{} { return &p25T64{} }},
	{65, func() interface{} { return p25T65{} }, func() interface{} { return &p25T65{} }},
	{66, func() interface{} { return p25T66{} }, func() interface{} { return &p25T66{} }},
	{67, func() interface{} { return p25T67{} }, func() interface{} { return &p25T67{} }},
	{68, func() interface{} { return p25T68{} }, func() interface{} { return &p25T68{} }},
	{69, func() interface{} { return p25T69{} }, func() interface{} { return &p25T69{} }},
	{70, func() interface{} { return p25T70{} }, func() interface{} { return &p25T70{} }},
	{71, func() interface{} { return p25T71{} }, func() interface{} { return &p25T71{} }},
	{72, func() interface{} { return p25T72{} }, func() interface{} { return &p25T72{} }},
	{73, func() interface{} { return p25T73{} }, func() interface{} { return &p25T73{} }},
	{74, func() interface{} { return p25T74{} }, func() interface{} { return &p25T74{} }},
	{75, func() interface{} { return p25T75{} }, func() interface{} { return &p25T75{} }},
	{76, func() interface{} { return p25T76{} }, func() interface{} { return &p25T76{} }},
	{77, func() interface{} { return p25T77{} }, func() interface{} { return &p25T77{} }},
	{78, func() interface{} { return p25T78{} }, func() interface{} { return &p25T78{} }},
	{79, func() interface{} { return p25T79{} }, func() interface{} { return &p25T79{} }},
	{80, func() interface{} { return p25T80{} }, func() interface{} { return &p25T80{} }},
	{81, func() interface{} { return p25T81{} }, func() interface{} { return &p25T81{} }},
	{82, func() interface{} { return p25T82{} }, func() interface{} { return &p25T82{} }},
	{83, func() interface{} { return p25T83{} }, func() interface{} { return &p25T83{} }},
	{84, func() interface{} { return p25T84{} }, func() interface{} { return &p25T84{} }},
	{85, func() interface{} { return p25T85{} }, func() interface{} { return &p25T85{} }},
	{86, func() interface{} { return p25T86{} }, func() interface{} { return &p25T86{} }},
	{87, func() interface{} { return p25T87{} }, func() interface{} { return &p25T87{} }},
	{88, func() interface{} { return p25T88{} }, func() interface{} { return &p25T88{} }},
	{89, func() interface{} { return p25T89{} }, func() interface{} { return &p25T89{} }},
	{90, func() interface{} { return p25T90{} }, func() interface{} { return &p25T90{} }},
	{91, func() interface{} { return p25T91{} }, func() interface{} { return &p25T91{} }},
	{92, func() interface{} { return p25T92{} }, func() interface{} { return &p25T92{} }},
	{93, func() interface{} { return p25T93{} }, func() interface{} { return &p25T93{} }},
	{94, func() interface{} { return p25T94{} }, func() interface{} { return &p25T94{} }},
	{95, func() interface{} { return p25T95{} }, func() interface{} { return &p25T95{} }},
	{96, func() interface{} { return p25T96{} }, func() interface{} { return &p25T96{} }},
	{97, func() interface{} { return p25T97{} }, func() interface{} { return &p25T97{} }},
	{98, func() interface{} { return p25T98{} }, func() interface{} { return &p25T98{} }},
	{99, func() interface{} { return p25T99{} }, func() interface{} { return &p25T99{} }},
	{100, func() interface{} { return p25T100{} }, func() interface{} { return &p25T100{} }},
	{101, func() interface{} { return p25T101{} }, func() interface{} { return &p25T101{} }},
	{102, func() interface{} { return p25T102{} }, func() interface{} { return &p25T102{} }},
	{103, func() interface{} { return p25T103{} }, func() interface{} { return &p25T103{} }},
	{104, func() interface{} { return p25T104{} }, func() interface{} { return &p25T104{} }},
	{105, func() interface{} { return p25T105{} }, func() interface{} { return &p25T105{} }},
	{106, func() interface{} { return p25T106{} }, func() interface{} { return &p25T106{} }},
	{107, func() interface{} { return p25T107{} }, func() interface{} { return &p25T107{} }},
	{108, func() interface{} { return p25T108{} }, func() interface{} { return &p25T108{} }},
	{109, func() interface{} { return p25T109{} }, func() interface{} { return &p25T109{} }},
	{110, func() interface{} { return p25T110{} }, func() interface{} { return &p25T110{} }},
	{111, func() interface{} { return p25T111{} }, func() interface{} { return &p25T111{} }},
	{112, func() interface{} { return p25T112{} }, func() interface{} { return &p25T112{} }},
	{113, func() interface{} { return p25T113{} }, func() interface{} { return &p25T113{} }},
	{114, func() interface{} { return p25T114{} }, func() interface{} { return &p25T114{} }},
	{115, func() interface{} { return p25T115{} }, func() interface{} { return &p25T115{} }},
	{116, func() interface{} { return p25T116{} }, func() interface{} { return &p25T116{} }},
	{117, func() interface{} { return p25T117{} }, func() interface{} { return &p25T117{} }},
	{118, func() interface{} { return p25T118{} }, func() interface{} { return &p25T118{} }},
	{119, func() interface{} { return p25T119{} }, func() interface{} { return &p25T119{} }},
	{120, func() interface{} { return p25T120{} }, func() interface{} { return &p25T120{} }},
	{121, func() interface{} { return p25T121{} }, func() interface{} { return &p25T121{} }},
	{122, func() interface{} { return p25T122{} }, func() interface{} { return &p25T122{} }},
	{123, func() interface{} { return p25T123{} }, func() interface{} { return &p25T123{} }},
	{124, func() interface{} { return p25T124{} }, func() interface{} { return &p25T124{} }},
	{125, func() interface{} { return p25T125{} }, func() interface{} { return &p25T125{} }},
	{126, func() interface{} { return p25T126{} }, func() interface{} { return &p25T126{} }},
	{127, func() interface{} { return p25T127{} }, func() interface{} { return &p25T127{} }},
	{128, func() interface{} { return p25T128{} }, func() interface{} { return &p25T128{} }},
	{129, func() interface{} { return p25T129{} }, func() interface{} { return &p25T129{} }},
	{130, func() interface{} { return p25T130{} }, func() interface{} { return &p25T130{} }},
	{131, func() interface{} { return p25T131{} }, func() interface{} { return &p25T131{} }},
	{132, func() interface{} { return p25T132{} }, func() interface{} { return &p25T132{} }},
	{133, func() interface{} { return p25T133{} }, func() interface{} { return &p25T133{} }},
	{134, func() interface{} { return p25T134{} }, func() interface{} { return &p25T134{} }},
	{135, func() interface{} { return p25T135{} }, func() interface{} { return &p25T135{} }},
	{136, func() interface{} { return p25T136{} }, func() interface{} { return &p25T136{} }},
	{137, func() interface{} { return p25T137{} }, func() interface{} { return &p25T137{} }},
	{138, func() interface{} { return p25T138{} }, func() interface{} { return &p25T138{} }},
	{139, func() interface{} { return p25T139{} }, func() interface{} { return &p25T139{} }},
	{140, func() interface{} { return p25T140{} }, func() interface{} { return &p25T140{} }},
	{141, func() interface{} { return p25T141{} }, func() interface{} { return &p25T141{} }},
	{142, func() interface{} { return p25T142{} }, func() interface{} { return &p25T142{} }},
	{143, func() interface{} { return p25T143{} }, func() interface{} { return &p25T143{} }},
	{144, func() interface{} { return p25T144{} }, func() interface{} { return &p25T144{} }},
	{145, func() interface{} { return p25T145{} }, func() interface{} { return &p25T145{} }},
	{146, func() interface{} { return p25T146{} }, func() interface{} { return &p25T146{} }},
	{147, func() interface{} { return p25T147{} }, func() interface{} { return &p25T147{} }},
	{148, func() interface{} { return p25T148{} }, func() interface{} { return &p25T148{} }},
	{149, func() interface{} { return p25T149{} }, func() interface{} { return &p25T149{} }},
	{150, func() interface{} { return p25T150{} }, func() interface{} { return &p25T150{} }},
	{151, func() interface{} { return p25T151{} }, func() interface{} { return &p25T151{} }},
	{152, func() interface{} { return p25T152{} }, func() interface{} { return &p25T152{} }},
	{153, func() interface{} { return p25T153{} }, func() interface{} { return &p25T153{} }},
	{154, func() interface{} { return p25T154{} }, func() interface{} { return &p25T154{} }},
	{155, func() interface{} { return p25T155{} }, func() interface{} { return &p25T155{} }},
	{156, func() interface{} { return p25T156{} }, func() interface{} { return &p25T156{} }},
	{157, func() interface{} { return p25T157{} }, func() interface{} { return &p25T157{} }},
	{158, func() interface{} { return p25T158{} }, func() interface{} { return &p25T158{} }},
	{159, func() interface{} { return p25T159{} }, func() interface{} { return &p25T159{} }},
	{160, func() interface{} { return p25T160{} }, func() interface{} { return &p25T160{} }},
	{161, func() interface{} { return p25T161{} }, func() interface{} { return &p25T161{} }},
	{162, func() interface{} { return p25T162{} }, func() interface{} { return &p25T162{} }},
	{163, func() interface{} { return p25T163{} }, func() interface{} { return &p25T163{} }},
	{164, func() interface{} { return p25T164{} }, func() interface{} { return &p25T164{} }},
	{165, func() interface{} { return p25T165{} }, func() interface{} { return &p25T165{} }},
	{166, func() interface{} { return p25T166{} }, func() interface{} { return &p25T166{} }},
	{167, func() interface{} { return p25T167{} }, func() interface{} { return &p25T167{} }},
	{168, func() interface{} { return p25T168{} }, func() interface{} { return &p25T168{} }},
	{169, func() interface{} { return p25T169{} }, func() interface{} { return &p25T169{} }},
	{170, func() interface{} { return p25T170{} }, func() interface{} { return &p25T170{} }},
	{171, func() interface{} { return p25T171{} }, func() interface{} { return &p25T171{} }},
	{172, func() interface{} { return p25T172{} }, func() interface{} { return &p25T172{} }},
	{173, func() interface{} { return p25T173{} }, func() interface{} { return &p25T173{} }},
	{174, func() interface{} { return p25T174{} }, func() interface{} { return &p25T174{} }},
	{175, func() interface{} { return p25T175{} }, func() interface{} { return &p25T175{} }},
	{176, func() interface{} { return p25T176{} }, func() interface{} { return &p25T176{} }},
	{177, func() interface{} { return p25T177{} }, func() interface{} { return &p25T177{} }},
	{178, func() interface{} { return p25T178{} }, func() interface{} { return &p25T178{} }},
	{179, func() interface{} { return p25T179{} }, func() interface{} { return &p25T179{} }},
	{180, func() interface{} { return p25T180{} }, func() interface{} { return &p25T180{} }},
	{181, func() interface{} { return p25T181{} }, func() interface{} { return &p25T181{} }},
	{182, func() interface{} { return p25T182{} }, func() interface{} { return &p25T182{} }},
	{183, func() interface{} { return p25T183{} }, func() interface{} { return &p25T183{} }},
	{184, func() interface{} { return p25T184{} }, func() interface{} { return &p25T184{} }},
	{185, func() interface{} { return p25T185{} }, func() interface{} { return &p25T185{} }},
	{186, func() interface{} { return p25T186{} }, func() interface{} { return &p25T186{} }},
	{187, func() interface{} { return p25T187{} }, func() interface{} { return &p25T187{} }},
	{188, func() interface{} { return p25T188{} }, func() interface{} { return &p25T188{} }},
	{189, func() interface{} { return p25T189{} }, func() interface{} { return &p25T189{} }},
	{190, func() interface{} { return p25T190{} }, func() interface{} { return &p25T190{} }},
	{191, func() interface{} { return p25T191{} }, func() interface{} { return &p25T191{} }},
	{192, func() interface{} { return p25T192{} }, func() interface{} { return &p25T192{} }},
	{193, func() interface{} { return p25T193{} }, func() interface{} { return &p25T193{} }},
	{194, func() interface{} { return p25T194{} }, func() interface{} { return &p25T194{} }},
	{195, func() interface{} { return p25T195{} }, func() interface{} { return &p25T195{} }},
	{196, func() interface{} { return p25T196{} }, func() interface{} { return &p25T196{} }},
	{197, func() interface{} { return p25T197{} }, func() interface{} { return &p25T197{} }},
	{198, func() interface{} { return p25T198{} }, func() interface{} { return &p25T198{} }},
	{199, func() interface{} { return p25T199{} }, func() interface{} { return &p25T199{} }},
	{200, func() interface{} { return p25T200{} }, func() interface{} { return &p25T200{} }},
	{201, func() interface{} { return p25T201{} }, func() interface{} { return &p25T201{} }},
	{202, func() interface{} { return p25T202{} }, func() interface{} { return &p25T202{} }},
	{203, func() interface{} { return p25T203{} }, func() interface{} { return &p25T203{} }},
	{204, func() interface{} { return p25T204{} }, func() interface{} { return &p25T204{} }},
	{205, func() interface{} { return p25T205{} }, func() interface{} { return &p25T205{} }},
	{206, func() interface{} { return p25T206{} }, func() interface{} { return &p25T206{} }},
	{207, func() interface{} { return p25T207{} }, func() interface{} { return &p25T207{} }},
	{208, func() interface{} { return p25T208{} }, func() interface{} { return &p25T208{} }},
	{209, func() interface{} { return p25T209{} }, func() interface{} { return &p25T209{} }},
	{210, func() interface{} { return p25T210{} }, func() interface{} { return &p25T210{} }},
	{211, func() interface{} { return p25T211{} }, func() interface{} { return &p25T211{} }},
	{212, func() interface{} { return p25T212{} }, func() interface{} { return &p25T212{} }},
	{213, func() interface{} { return p25T213{} }, func() interface{} { return &p25T213{} }},
	{214, func() interface{} { return p25T214{} }, func() interface{} { return &p25T214{} }},
	{215, func() interface{} { return p25T215{} }, func() interface{} { return &p25T215{} }},
	{216, func() interface{} { return p25T216{} }, func() interface{} { return &p25T216{} }},
	{217, func() interface{} { return p25T217{} }, func() interface{} { return &p25T217{} }},
	{218, func() interface{} { return p25T218{} }, func() interface{} { return &p25T218{} }},
	{219, func() interface{} { return p25T219{} }, func() interface{} { return &p25T219{} }},
	{220, func() interface{} { return p25T220{} }, func() interface{} { return &p25T220{} }},
	{221, func() interface{} { return p25T221{} }, func() interface{} { return &p25T221{} }},
	{222, func() interface{} { return p25T222{} }, func() interface{} { return &p25T222{} }},
	{223, func() interface{} { return p25T223{} }, func() interface{} { return &p25T223{} }},
	{224, func() interface{} { return p25T224{} }, func() interface{} { return &p25T224{} }},
	{225, func() interface{} { return p25T225{} }, func() interface{} { return &p25T225{} }},
	{226, func() interface{} { return p25T226{} }, func() interface{} { return &p25T226{} }},
	{227, func() interface{} { return p25T227{} }, func() interface{} { return &p25T227{} }},
	{228, func() interface{} { return p25T228{} }, func() interface{} { return &p25T228{} }},
	{229, func() interface{} { return p25T229{} }, func() interface{} { return &p25T229{} }},
	{230, func() interface{} { return p25T230{} }, func() interface{} { return &p25T230{} }},
	{231, func() interface{} { return p25T231{} }, func() interface{} { return &p25T231{} }},
	{232, func() interface{} { return p25T232{} }, func() interface{} { return &p25T232{} }},
	{233, func() interface{} { return p25T233{} }, func() interface{} { return &p25T233{} }},
	{234, func() interface{} { return p25T234{} }, func() interface{} { return &p25T234{} }},
	{235, func() interface{} { return p25T235{} }, func() interface{} { return &p25T235{} }},
	{236, func() interface{} { return p25T236{} }, func() interface{} { return &p25T236{} }},
	{237, func() interface{} { return p25T237{} }, func() interface{} { return &p25T237{} }},
	{238, func() interface{} { return p25T238{} }, func() interface{} { return &p25T238{} }},
	{239, func() interface{} { return p25T239{} }, func() interface{} { return &p25T239{} }},
	{240, func() interface{} { return p25T240{} }, func() interface{} { return &p25T240{} }},
	{241, func() interface{} { return p25T241{} }, func() interface{} { return &p25T241{} }},
	{242, func() interface{} { return p25T242{} }, func() interface{} { return &p25T242{} }},
	{243, func() interface{} { return p25T243{} }, func() interface{} { return &p25T243{} }},
	{244, func() interface{} { return p25T244{} }, func() interface{} { return &p25T244{} }},
	{245, func() interface{} { return p25T245{} }, func() interface{} { return &p25T245{} }},
	{246, func() interface{} { return p25T246{} }, func() interface{} { return &p25T246{} }},
	{247, func() interface{} { return p25T247{} }, func() interface{} { return &p25T247{} }},
	{248, func() interface{} { return p25T248{} }, func() interface{} { return &p25T248{} }},
	{249, func() interface{} { return p25T249{} }, func() interface{} { return &p25T249{} }},
	{250, func() interface{} { return p25T250{} }, func() interface{} { return &p25T250{} }},
	{251, func() interface{} { return p25T251{} }, func() interface{} { return &p25T251{} }},
	{252, func() interface{} { return p25T252{} }, func() interface{} { return &p25T252{} }},
	{253, func() interface{} { return p25T253{} }, func() interface{} { return &p25T253{} }},
	{254, func() interface{} { return p25T254{} }, func() interface{} { return &p25T254{} }},
	{255, func() interface{} { return p25T255{} }, func() interface{} { return &p25T255{} }},
	{256, func() interface{} { return p25T256{} }, func() interface{} { return &p25T256{} }},
	{257, func() interface{} { return p25T257{} }, func() interface{} { return &p25T257{} }},
	{258, func() interface{} { return p25T258{} }, func() interface{} { return &p25T258{} }},
	{259, func() interface{} { return p25T259{} }, func() interface{} { return &p25T259{} }},
	{260, func() interface{} { return p25T260{} }, func() interface{} { return &p25T260{} }},
	{261, func() interface{} { return p25T261{} }, func() interface{} { return &p25T261{} }},
	{262, func() interface{} { return p25T262{} }, func() interface{} { return &p25T262{} }},
	{263, func() interface{} { return p25T263{} }, func() interface{} { return &p25T263{} }},
	{264, func() interface{} { return p25T264{} }, func() interface{} { return &p25T264{} }},
	{265, func() interface{} { return p25T265{} }, func() interface{} { return &p25T265{} }},
	{266, func() interface{} { return p25T266{} }, func() interface{} { return &p25T266{} }},
	{267, func() interface{} { return p25T267{} }, func() interface{} { return &p25T267{} }},
	{268, func() interface{} { return p25T268{} }, func() interface{} { return &p25T268{} }},
	{269, func() interface{} { return p25T269{} }, func() interface{} { return &p25T269{} }},
	{270, func() interface{} { return p25T270{} }, func() interface{} { return &p25T270{} }},
	{271, func() interface{} { return p25T271{} }, func() interface{} { return &p25T271{} }},
	{272, func() interface{} { return p25T272{} }, func() interface{} { return &p25T272{} }},
	{273, func() interface{} { return p25T273{} }, func() interface{} { return &p25T273{} }},
	{274, func() interface{} { return p25T274{} }, func() interface{} { return &p25T274{} }},
	{275, func() interface{} { return p25T275{} }, func() interface{} { return &p25T275{} }},
	{276, func() interface{} { return p25T276{} }, func() interface{} { return &p25T276{} }},
	{277, func() interface{} { return p25T277{} }, func() interface{} { return &p25T277{} }},
	{278, func() interface{} { return p25T278{} }, func() interface{} { return &p25T278{} }},
	{279, func() interface{} { return p25T279{} }, func() interface{} { return &p25T279{} }},
	{280, func() interface{} { return p25T280{} }, func() interface{} { return &p25T280{} }},
	{281, func() interface{} { return p25T281{} }, func() interface{} { return &p25T281{} }},
	{282, func() interface{} { return p25T282{} }, func() interface{} { return &p25T282{} }},
	{283, func() interface{} { return p25T283{} }, func() interface{} { return &p25T283{} }},
	{284, func() interface{} { return p25T284{} }, func() interface{} { return &p25T284{} }},
	{285, func() interface{} { return p25T285{} }, func() interface{} { return &p25T285{} }},
	{286, func() interface{} { return p25T286{} }, func() interface{} { return &p25T286{} }},
	{287, func() interface{} { return p25T287{} }, func() interface{} { return &p25T287{} }},
	{288, func() interface{} { return p25T288{} }, func() interface{} { return &p25T288{} }},
	{289, func() interface{} { return p25T289{} }, func() interface{} { return &p25T289{} }},
	{290, func() interface{} { return p25T290{} }, func() interface{} { return &p25T290{} }},
	{291, func() interface{} { return p25T291{} }, func() interface{} { return &p25T291{} }},
	{292, func() interface{} { return p25T292{} }, func() interface{} { return &p25T292{} }},
	{293, func() interface{} { return p25T293{} }, func() interface{} { return &p25T293{} }},
	{294, func() interface{} { return p25T294{} }, func() interface{} { return &p25T294{} }},
	{295, func() interface{} { return p25T295{} }, func() interface{} { return &p25T295{} }},
	{296, func() interface{} { return p25T296{} }, func() interface{} { return &p25T296{} }},
	{297, func() interface{} { return p25T297{} }, func() interface{} { return &p25T297{} }},
	{298, func() interface{} { return p25T298{} }, func() interface{} { return &p25T298{} }},
	{299, func() interface{} { return p25T299{} }, func() interface{} { return &p25T299{} }},
	{300, func() interface{} { return p25T300{} }, func() interface{} { return &p25T300{} }},
	{301, func() interface{} { return p25T301{} }, func() interface{} { return &p25T301{} }},
	{302, func() interface{} { return p25T302{} }, func() interface{} { return &p25T302{} }},
	{303, func() interface{} { return p25T303{} }, func() interface{} { return &p25T303{} }},
	{304, func() interface{} { return p25T304{} }, func() interface{} { return &p25T304{} }},
	{305, func() interface{} { return p25T305{} }, func() interface{} { return &p25T305{} }},
	{306, func() interface{} { return p25T306{} }, func() interface{} { return &p25T306{} }},
	{307, func() interface{} { return p25T307{} }, func() interface{} { return &p25T307{} }},
	{308, func() interface{} { return p25T308{} }, func() interface{} { return &p25T308{} }},
	{309, func() interface{} { return p25T309{} }, func() interface{} { return &p25T309{} }},
	{310, func() interface{} { return p25T310{} }, func() interface{} { return &p25T310{} }},
	{311, func() interface{} { return p25T311{} }, func() interface{} { return &p25T311{} }},
	{312, func() interface{} { return p25T312{} }, func() interface{} { return &p25T312{} }},
	{313, func() interface{} { return p25T313{} }, func() interface{} { return &p25T313{} }},
	{314, func() interface{} { return p25T314{} }, func() interface{} { return &p25T314{} }},
	{315, func() interface{} { return p25T315{} }, func() interface{} { return &p25T315{} }},
	{316, func() interface{} { return p25T316{} }, func() interface{} { return &p25T316{} }},
	{317, func() interface{} { return p25T317{} }, func() interface{} { return &p25T317{} }},
	{318, func() interface{} { return p25T318{} }, func() interface{} { return &p25T318{} }},
	{319, func() interface{} { return p25T319{} }, func() interface{} { return &p25T319{} }},
	{320, func() interface{} { return p25T320{} }, func() interface{} { return &p25T320{} }},
	{321, func() interface{} { return p25T321{} }, func() interface{} { return &p25T321{} }},
	{322, func() interface{} { return p25T322{} }, func() interface{} { return &p25T322{} }},
	{323, func() interface{} { return p25T323{} }, func() interface{} { return &p25T323{} }},
	{324, func() interface{} { return p25T324{} }, func() interface{} { return &p25T324{} }},
	{325, func() interface{} { return p25T325{} }, func() interface{} { return &p25T325{} }},
	{326, func() interface{} { return p25T326{} }, func() interface{} { return &p25T326{} }},
	{327, func() interface{} { return p25T327{} }, func() interface{} { return &p25T327{} }},
	{328, func() interface{} { return p25T328{} }, func() interface{} { return &p25T328{} }},
	{329, func() interface{} { return p25T329{} }, func() interface{} { return &p25T329{} }},
	{330, func() interface{} { return p25T330{} }, func() interface{} { return &p25T330{} }},
	{331, func() interface{} { return p25T331{} }, func() interface{} { return &p25T331{} }},
	{332, func() interface{} { return p25T332{} }, func() interface{} { return &p25T332{} }},
	{333, func() interface{} { return p25T333{} }, func() interface{} { return &p25T333{} }},
	{334, func() interface{} { return p25T334{} }, func() interface{} { return &p25T334{} }},
	{335, func() interface{} { return p25T335{} }, func() interface{} { return &p25T335{} }},
	{336, func() interface{} { return p25T336{} }, func() interface{} { return &p25T336{} }},
	{337, func() interface{} { return p25T337{} }, func() interface{} { return &p25T337{} }},
	{338, func() interface{} { return p25T338{} }, func() interface{} { return &p25T338{} }},
	{339, func() interface{} { return p25T339{} }, func() interface{} { return &p25T339{} }},
	{340, func() interface{} { return p25T340{} }, func() interface{} { return &p25T340{} }},
	{341, func() interface{} { return p25T341{} }, func() interface{} { return &p25T341{} }},
	{342, func() interface{} { return p25T342{} }, func() interface{} { return &p25T342{} }},
	{343, func() interface{} { return p25T343{} }, func() interface{} { return &p25T343{} }},
	{344, func() interface{} { return p25T344{} }, func() interface{} { return &p25T344{} }},
	{345, func() interface{} { return p25T345{} }, func() interface{} { return &p25T345{} }},
	{346, func() interface{} { return p25T346{} }, func() interface{} { return &p25T346{} }},
	{347, func() interface{} { return p25T347{} }, func() interface{} { return &p25T347{} }},
	{348, func() interface{} { return p25T348{} }, func() interface{} { return &p25T348{} }},
	{349, func() interface{} { return p25T349{} }, func() interface{} { return &p25T349{} }},
	{350, func() interface{} { return p25T350{} }, func() interface{} { return &p25T350{} }},
	{351, func() interface{} { return p25T351{} }, func() interface{} { return &p25T351{} }},
	{352, func() interface{} { return p25T352{} }, func() interface{} { return &p25T352{} }},
	{353, func() interface{} { return p25T353{} }, func() interface{} { return &p25T353{} }},
	{354, func() interface{} { return p25T354{} }, func() interface{} { return &p25T354{} }},
	{355, func() interface{} { return p25T355{} }, func() interface{} { return &p25T355{} }},
	{356, func() interface{} { return p25T356{} }, func() interface{} { return &p25T356{} }},
	{357, func() interface{} { return p25T357{} }, func() interface{} { return &p25T357{} }},
	{358, func() interface{} { return p25T358{} }, func() interface{} { return &p25T358{} }},
	{359, func() interface{} { return p25T359{} }, func() interface{} { return &p25T359{} }},
	{360, func() interface{} { return p25T360{} }, func() interface{} { return &p25T360{} }},
	{361, func() interface{} { return p25T361{} }, func() interface{} { return &p25T361{} }},
	{362, func() interface{} { return p25T362{} }, func() interface{} { return &p25T362{} }},
	{363, func() interface{} { return p25T363{} }, func() interface{} { return &p25T363{} }},
	{364, func() interface{} { return p25T364{} }, func() interface{} { return &p25T364{} }},
	{365, func() interface{} { return p25T365{} }, func() interface{} { return &p25T365{} }},
	{366, func() interface{} { return p25T366{} }, func() interface{} { return &p25T366{} }},
	{367, func() interface{} { return p25T367{} }, func() interface{} { return &p25T367{} }},
	{368, func() interface{} { return p25T368{} }, func() interface{} { return &p25T368{} }},
	{369, func() interface{} { return p25T369{} }, func() interface{} { return &p25T369{} }},
	{370, func() interface{} { return p25T370{} }, func() interface{} { return &p25T370{} }},
	{371, func() interface{} { return p25T371{} }, func() interface{} { return &p25T371{} }},
	{372, func() interface{} { return p25T372{} }, func() interface{} { return &p25T372{} }},
	{373, func() interface{} { return p25T373{} }, func() interface{} { return &p25T373{} }},
	{374, func() interface{} { return p25T374{} }, func() interface{} { return &p25T374{} }},
	{375, func() interface{} { return p25T375{} }, func() interface{} { return &p25T375{} }},
	{376, func() interface{} { return p25T376{} }, func() interface{} { return &p25T376{} }},
	{377, func() interface{} { return p25T377{} }, func() interface{} { return &p25T377{} }},
	{378, func() interface{} { return p25T378{} }, func() interface{} { return &p25T378{} }},
	{379, func() interface{} { return p25T379{} }, func() interface{} { return &p25T379{} }},
	{380, func() interface{} { return p25T380{} }, func() interface{} { return &p25T380{} }},
	{381, func() interface{} { return p25T381{} }, func() interface{} { return &p25T381{} }},
	{382, func() interface{} { return p25T382{} }, func() interface{} { return &p25T382{} }},
	{383, func() interface{} { return p25T383{} }, func() interface{} { return &p25T383{} }},
	{384, func() interface{} { return p25T384{} }, func() interface{} { return &p25T384{} }},
	{385, func() interface{} { return p25T385{} }, func() interface{} { return &p25T385{} }},
	{386, func() interface{} { return p25T386{} }, func() interface{} { return &p25T386{} }},
	{387, func() interface{} { return p25T387{} }, func() interface{} { return &p25T387{} }},
	{388, func() interface{} { return p25T388{} }, func() interface{} { return &p25T388{} }},
	{389, func() interface{} { return p25T389{} }, func() interface{} { return &p25T389{} }},
	{390, func() interface{} { return p25T390{} }, func() interface{} { return &p25T390{} }},
	{391, func() interface{} { return p25T391{} }, func() interface{} { return &p25T391{} }},
	{392, func() interface{} { return p25T392{} }, func() interface{} { return &p25T392{} }},
	{393, func() interface{} { return p25T393{} }, func() interface{} { return &p25T393{} }},
	{394, func() interface{} { return p25T394{} }, func() interface{} { return &p25T394{} }},
	{395, func() interface{} { return p25T395{} }, func() interface{} { return &p25T395{} }},
	{396, func() interface{} { return p25T396{} }, func() interface{} { return &p25T396{} }},
	{397, func() interface{} { return p25T397{} }, func() interface{} { return &p25T397{} }},
	{398, func() interface{} { return p25T398{} }, func() interface{} { return &p25T398{} }},
	{399, func() interface{} { return p25T399{} }, func() interface{} { return &p25T399{} }},
	{400, func() interface{} { return p25T400{} }, func() interface{} { return &p25T400{} }},
	{401, func() interface{} { return p25T401{} }, func() interface{} { return &p25T401{} }},
	{402, func() interface{} { return p25T402{} }, func() interface{} { return &p25T402{} }},
	{403, func() interface{} { return p25T403{} }, func() interface{} { return &p25T403{} }},
	{404, func() interface{} { return p25T404{} }, func() interface{} { return &p25T404{} }},
	{405, func() interface{} { return p25T405{} }, func() interface{} { return &p25T405{} }},
	{406, func() interface{} { return p25T406{} }, func() interface{} { return &p25T406{} }},
	{407, func() interface{} { return p25T407{} }, func() interface{} { return &p25T407{} }},
	{408, func() interface{} { return p25T408{} }, func() interface{} { return &p25T408{} }},
	{409, func() interface{} { return p25T409{} }, func() interface{} { return &p25T409{} }},
	{410, func() interface{} { return p25T410{} }, func() interface{} { return &p25T410{} }},
	{411, func() interface{} { return p25T411{} }, func() interface{} { return &p25T411{} }},
	{412, func() interface{} { return p25T412{} }, func() interface{} { return &p25T412{} }},
	{413, func() interface{} { return p25T413{} }, func() interface{} { return &p25T413{} }},
	{414, func() interface{} { return p25T414{} }, func() interface{} { return &p25T414{} }},
	{415, func() interface{} { return p25T415{} }, func() interface{} { return &p25T415{} }},
	{416, func() interface{} { return p25T416{} }, func() interface{} { return &p25T416{} }},
	{417, func() interface{} { return p25T417{} }, func() interface{} { return &p25T417{} }},
	{418, func() interface{} { return p25T418{} }, func() interface{} { return &p25T418{} }},
	{419, func() interface{} { return p25T419{} }, func() interface{} { return &p25T419{} }},
	{420, func() interface{} { return p25T420{} }, func() interface{} { return &p25T420{} }},
	{421, func() interface{} { return p25T421{} }, func() interface{} { return &p25T421{} }},
	{422, func() interface{} { return p25T422{} }, func() interface{} { return &p25T422{} }},
	{423, func() interface{} { return p25T423{} }, func() interface{} { return &p25T423{} }},
	{424, func() interface{} { return p25T424{} }, func() interface{} { return &p25T424{} }},
	{425, func() interface{} { return p25T425{} }, func() interface{} { return &p25T425{} }},
	{426, func() interface{} { return p25T426{} }, func() interface{} { return &p25T426{} }},
	{427, func() interface{} { return p25T427{} }, func() interface{} { return &p25T427{} }},
	{428, func() interface{} { return p25T428{} }, func() interface{} { return &p25T428{} }},
	{429, func() interface{} { return p25T429{} }, func() interface{} { return &p25T429{} }},
	{430, func() interface{} { return p25T430{} }, func() interface{} { return &p25T430{} }},
	{431, func() interface{} { return p25T431{} }, func() interface{} { return &p25T431{} }},
	{432, func() interface{} { return p25T432{} }, func() interface{} { return &p25T432{} }},
	{433, func() interface{} { return p25T433{} }, func() interface{} { return &p25T433{} }},
	{434, func() interface{} { return p25T434{} }, func() interface{} { return &p25T434{} }},
	{435, func() interface{} { return p25T435{} }, func() interface{} { return &p25T435{} }},
	{436, func() interface{} { return p25T436{} }, func() interface{} { return &p25T436{} }},
	{437, func() interface{} { return p25T437{} }, func() interface{} { return &p25T437{} }},
	{438, func() interface{} { return p25T438{} }, func() interface{} { return &p25T438{} }},
	{439, func() interface{} { return p25T439{} }, func() interface{} { return &p25T439{} }},
	{440, func() interface{} { return p25T440{} }, func() interface{} { return &p25T440{} }},
	{441, func() interface{} { return p25T441{} }, func() interface{} { return &p25T441{} }},
	{442, func() interface{} { return p25T442{} }, func() interface{} { return &p25T442{} }},
	{443, func() interface{} { return p25T443{} }, func() interface{} { return &p25T443{} }},
	{444, func() interface{} { return p25T444{} }, func() interface{} { return &p25T444{} }},
	{445, func() interface{} { return p25T445{} }, func() interface{} { return &p25T445{} }},
	{446, func() interface{} { return p25T446{} }, func() interface{} { return &p25T446{} }},
	{447, func() interface{} { return p25T447{} }, func() interface{} { return &p25T447{} }},
	{448, func() interface{} { return p25T448{} }, func() interface{} { return &p25T448{} }},
	{449, func() interface{} { return p25T449{} }, func() interface{} { return &p25T449{} }},
	{450, func() interface{} { return p25T450{} }, func() interface{} { return &p25T450{} }},
	{451, func() interface{} { return p25T451{} }, func() interface{} { return &p25T451{} }},
	{452, func() interface{} { return p25T452{} }, func() interface{} { return &p25T452{} }},
	{453, func() interface{} { return p25T453{} }, func() interface{} { return &p25T453{} }},
	{454, func() interface{} { return p25T454{} }, func() interface{} { return &p25T454{} }},
	{455, func() interface{} { return p25T455{} }, func() interface{} { return &p25T455{} }},
	{456, func() interface{} { return p25T456{} }, func() interface{} { return &p25T456{} }},
	{457, func() interface{} { return p25T457{} }, func() interface{} { return &p25T457{} }},
	{458, func() interface{} { return p25T458{} }, func() interface{} { return &p25T458{} }},
	{459, func() interface{} { return p25T459{} }, func() interface{} { return &p25T459{} }},
	{460, func() interface{} { return p25T460{} }, func() interface{} { return &p25T460{} }},
	{461, func() interface{} { return p25T461{} }, func() interface{} { return &p25T461{} }},
	{462, func() interface{} { return p25T462{} }, func() interface{} { return &p25T462{} }},
	{463, func() interface{} { return p25T463{} }, func() interface{} { return &p25T463{} }},
	{464, func() interface{} { return p25T464{} }, func() interface{} { return &p25T464{} }},
	{465, func() interface{} { return p25T465{} }, func() interface{} { return &p25T465{} }},
	{466, func() interface{} { return p25T466{} }, func() interface{} { return &p25T466{} }},
	{467, func() interface{} { return p25T467{} }, func() interface{} { return &p25T467{} }},
	{468, func() interface{} { return p25T468{} }, func() interface{} { return &p25T468{} }},
	{469, func() interface{} { return p25T469{} }, func() interface{} { return &p25T469{} }},
	{470, func() interface{} { return p25T470{} }, func() interface{} { return &p25T470{} }},
	{471, func() interface{} { return p25T471{} }, func() interface{} { return &p25T471{} }},
	{472, func() interface{} { return p25T472{} }, func() interface{} { return &p25T472{} }},
	{473, func() interface{} { return p25T473{} }, func() interface{} { return &p25T473{} }},
	{474, func() interface{} { return p25T474{} }, func() interface{} { return &p25T474{} }},
	{475, func() interface{} { return p25T475{} }, func() interface{} { return &p25T475{} }},
	{476, func() interface{} { return p25T476{} }, func() interface{} { return &p25T476{} }},
	{477, func() interface{} { return p25T477{} }, func() interface{} { return &p25T477{} }},
	{478, func() interface{} { return p25T478{} }, func() interface{} { return &p25T478{} }},
	{479, func() interface{} { return p25T479{} }, func() interface{} { return &p25T479{} }},
	{480, func() interface{} { return p25T480{} }, func() interface{} { return &p25T480{} }},
	{481, func() interface{} { return p25T481{} }, func() interface{} { return &p25T481{} }},
	{482, func() interface{} { return p25T482{} }, func() interface{} { return &p25T482{} }},
	{483, func() interface{} { return p25T483{} }, func() interface{} { return &p25T483{} }},
	{484, func() interface{} { return p25T484{} }, func() interface{} { return &p25T484{} }},
	{485, func() interface{} { return p25T485{} }, func() interface{} { return &p25T485{} }},
	{486, func() interface{} { return p25T486{} }, func() interface{} { return &p25T486{} }},
	{487, func() interface{} { return p25T487{} }, func() interface{} { return &p25T487{} }},
	{488, func() interface{} { return p25T488{} }, func() interface{} { return &p25T488{} }},
	{489, func() interface{} { return p25T489{} }, func() interface{} { return &p25T489{} }},
	{490, func() interface{} { return p25T490{} }, func() interface{} { return &p25T490{} }},
	{491, func() interface{} { return p25T491{} }, func() interface{} { return &p25T491{} }},
	{492, func() interface{} { return p25T492{} }, func() interface{} { return &p25T492{} }},
	{493, func() interface{} { return p25T493{} }, func() interface{} { return &p25T493{} }},
	{494, func() interface{} { return p25T494{} }, func() interface{} { return &p25T494{} }},
	{495, func() interface{} { return p25T495{} }, func() interface{} { return &p25T495{} }},
	{496, func() interface{} { return p25T496{} }, func() interface{} { return &p25T496{} }},
	{497, func() interface{} { return p25T497{} }, func() interface{} { return &p25T497{} }},
	{498, func() interface{} { return p25T498{} }, func() interface{} { return &p25T498{} }},
	{499, func() interface{} { return p25T499{} }, func() interface{} { return &p25T499{} }},
	{500, func() interface{} { return p25T500{} }, func() interface{} { return &p25T500{} }},
	{501, func() interface{} { return p25T501{} }, func() interface{} { return &p25T501{} }},
	{502, func() interface{} { return p25T502{} }, func() interface{} { return &p25T502{} }},
	{503, func() interface{} { return p25T503{} }, func() interface{} { return &p25T503{} }},
	{504, func() interface{} { return p25T504{} }, func() interface{} { return &p25T504{} }},
	{505, func() interface{} { return p25T505{} }, func() interface{} { return &p25T505{} }},
	{506, func() interface{} { return p25T506{} }, func() interface{} { return &p25T506{} }},
	{507, func() interface{} { return p25T507{} }, func() interface{} { return &p25T507{} }},
	{508, func() interface{} { return p25T508{} }, func() interface{} { return &p25T508{} }},
	{509, func() interface{} { return p25T509{} }, func() interface{} { return &p25T509{} }},
	{510, func() interface{} { return p25T510{} }, func() interface{} { return &p25T510{} }},
	{511, func() interface{} { return p25T511{} }, func() interface{} { return &p25T511{} }},
}

type p25T0 struct{}

type p25T1 struct{}

func (*p25T1) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

type p25T2 struct{}

func (p25T2) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

type p25T3 struct{}

func (*p25T3) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T3) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

type p25T4 struct{}

func (p25T4) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T5 struct{}

func (*p25T5) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T5) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T6 struct{}

func (p25T6) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T6) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T7 struct{}

func (*p25T7) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T7) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T7) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T8 struct{}

func (*p25T8) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T9 struct{}

func (*p25T9) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T9) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T10 struct{}

func (p25T10) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T10) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T11 struct{}

func (*p25T11) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T11) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T11) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T12 struct{}

func (p25T12) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T12) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T13 struct{}

func (*p25T13) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T13) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T13) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T14 struct{}

func (p25T14) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T14) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T14) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T15 struct{}

func (*p25T15) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T15) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T15) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T15) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T16 struct{}

func (p25T16) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T17 struct{}

func (*p25T17) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T17) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T18 struct{}

func (p25T18) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T18) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T19 struct{}

func (*p25T19) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T19) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T19) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T20 struct{}

func (p25T20) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T20) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T21 struct{}

func (*p25T21) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T21) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T21) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T22 struct{}

func (p25T22) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T22) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T22) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T23 struct{}

func (*p25T23) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T23) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T23) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T23) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T24 struct{}

func (*p25T24) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T24) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T25 struct{}

func (*p25T25) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T25) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T25) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T26 struct{}

func (p25T26) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T26) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T26) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T27 struct{}

func (*p25T27) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T27) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T27) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T27) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T28 struct{}

func (p25T28) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T28) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T28) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T29 struct{}

func (*p25T29) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T29) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T29) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T29) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T30 struct{}

func (p25T30) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T30) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T30) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T30) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T31 struct{}

func (*p25T31) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T31) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T31) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T31) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T31) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T32 struct{}

func (p25T32) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T33 struct{}

func (*p25T33) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T33) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T34 struct{}

func (p25T34) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T34) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T35 struct{}

func (*p25T35) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T35) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T35) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T36 struct{}

func (p25T36) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T36) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T37 struct{}

func (*p25T37) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T37) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T37) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T38 struct{}

func (p25T38) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T38) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T38) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T39 struct{}

func (*p25T39) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T39) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T39) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T39) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T40 struct{}

func (*p25T40) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T40) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T41 struct{}

func (*p25T41) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T41) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T41) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T42 struct{}

func (p25T42) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T42) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T42) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T43 struct{}

func (*p25T43) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T43) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T43) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T43) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T44 struct{}

func (p25T44) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T44) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T44) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T45 struct{}

func (*p25T45) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T45) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T45) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T45) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T46 struct{}

func (p25T46) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T46) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T46) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T46) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T47 struct{}

func (*p25T47) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T47) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T47) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T47) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T47) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T48 struct{}

func (p25T48) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T48) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T49 struct{}

func (*p25T49) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T49) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T49) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T50 struct{}

func (p25T50) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T50) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T50) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T51 struct{}

func (*p25T51) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T51) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T51) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T51) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T52 struct{}

func (p25T52) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T52) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T52) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T53 struct{}

func (*p25T53) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T53) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T53) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T53) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T54 struct{}

func (p25T54) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T54) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T54) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T54) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T55 struct{}

func (*p25T55) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T55) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T55) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T55) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T55) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T56 struct{}

func (*p25T56) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T56) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T56) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T57 struct{}

func (*p25T57) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T57) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T57) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T57) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T58 struct{}

func (p25T58) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T58) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T58) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T58) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T59 struct{}

func (*p25T59) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T59) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T59) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T59) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T59) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T60 struct{}

func (p25T60) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T60) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T60) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T60) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T61 struct{}

func (*p25T61) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T61) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T61) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T61) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T61) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T62 struct{}

func (p25T62) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T62) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T62) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T62) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T62) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T63 struct{}

func (*p25T63) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T63) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T63) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T63) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T63) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T63) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T64 struct{}

func (p25T64) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T65 struct{}

func (*p25T65) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T65) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T66 struct{}

func (p25T66) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T66) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T67 struct{}

func (*p25T67) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T67) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T67) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T68 struct{}

func (p25T68) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T68) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T69 struct{}

func (*p25T69) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T69) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T69) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T70 struct{}

func (p25T70) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T70) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T70) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T71 struct{}

func (*p25T71) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T71) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T71) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T71) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T72 struct{}

func (*p25T72) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T72) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T73 struct{}

func (*p25T73) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T73) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T73) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T74 struct{}

func (p25T74) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T74) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T74) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T75 struct{}

func (*p25T75) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T75) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T75) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T75) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T76 struct{}

func (p25T76) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T76) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T76) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T77 struct{}

func (*p25T77) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T77) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T77) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T77) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T78 struct{}

func (p25T78) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T78) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T78) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T78) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T79 struct{}

func (*p25T79) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T79) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T79) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T79) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T79) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T80 struct{}

func (p25T80) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T80) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T81 struct{}

func (*p25T81) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T81) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T81) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T82 struct{}

func (p25T82) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T82) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T82) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T83 struct{}

func (*p25T83) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T83) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T83) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T83) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T84 struct{}

func (p25T84) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T84) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T84) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T85 struct{}

func (*p25T85) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T85) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T85) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T85) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T86 struct{}

func (p25T86) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T86) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T86) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T86) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T87 struct{}

func (*p25T87) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T87) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T87) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T87) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T87) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T88 struct{}

func (*p25T88) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T88) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T88) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T89 struct{}

func (*p25T89) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T89) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T89) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T89) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T90 struct{}

func (p25T90) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T90) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T90) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T90) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T91 struct{}

func (*p25T91) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T91) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T91) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T91) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T91) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T92 struct{}

func (p25T92) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T92) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T92) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T92) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T93 struct{}

func (*p25T93) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T93) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T93) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T93) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T93) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T94 struct{}

func (p25T94) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T94) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T94) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T94) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T94) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T95 struct{}

func (*p25T95) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T95) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T95) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T95) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T95) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T95) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T96 struct{}

func (p25T96) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T96) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T97 struct{}

func (*p25T97) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T97) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T97) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T98 struct{}

func (p25T98) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T98) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T98) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T99 struct{}

func (*p25T99) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T99) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T99) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T99) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T100 struct{}

func (p25T100) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T100) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T100) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T101 struct{}

func (*p25T101) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T101) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T101) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T101) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T102 struct{}

func (p25T102) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T102) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T102) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T102) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T103 struct{}

func (*p25T103) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T103) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T103) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T103) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T103) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T104 struct{}

func (*p25T104) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T104) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T104) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T105 struct{}

func (*p25T105) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T105) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T105) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T105) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T106 struct{}

func (p25T106) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T106) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T106) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T106) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T107 struct{}

func (*p25T107) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T107) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T107) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T107) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T107) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T108 struct{}

func (p25T108) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T108) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T108) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T108) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T109 struct{}

func (*p25T109) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T109) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T109) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T109) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T109) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T110 struct{}

func (p25T110) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T110) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T110) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T110) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T110) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T111 struct{}

func (*p25T111) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T111) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T111) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T111) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T111) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T111) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T112 struct{}

func (p25T112) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T112) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T112) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T113 struct{}

func (*p25T113) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T113) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T113) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T113) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T114 struct{}

func (p25T114) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T114) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T114) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T114) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T115 struct{}

func (*p25T115) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T115) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T115) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T115) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T115) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T116 struct{}

func (p25T116) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T116) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T116) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T116) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T117 struct{}

func (*p25T117) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T117) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T117) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T117) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T117) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T118 struct{}

func (p25T118) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T118) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T118) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T118) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T118) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T119 struct{}

func (*p25T119) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T119) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T119) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T119) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T119) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T119) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T120 struct{}

func (*p25T120) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T120) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T120) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T120) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T121 struct{}

func (*p25T121) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T121) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T121) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T121) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T121) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T122 struct{}

func (p25T122) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T122) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T122) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T122) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T122) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T123 struct{}

func (*p25T123) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T123) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T123) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T123) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T123) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T123) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T124 struct{}

func (p25T124) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T124) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T124) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T124) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T124) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T125 struct{}

func (*p25T125) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T125) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T125) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T125) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T125) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T125) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T126 struct{}

func (p25T126) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T126) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T126) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T126) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T126) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T126) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T127 struct{}

func (*p25T127) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T127) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T127) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T127) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T127) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T127) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T127) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T128 struct{ p25Embedded }

type p25T129 struct{ p25Embedded }

func (*p25T129) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

type p25T130 struct{ p25Embedded }

func (p25T130) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

type p25T131 struct{ p25Embedded }

func (*p25T131) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T131) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

type p25T132 struct{ p25Embedded }

func (p25T132) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T133 struct{ p25Embedded }

func (*p25T133) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T133) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T134 struct{ p25Embedded }

func (p25T134) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T134) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T135 struct{ p25Embedded }

func (*p25T135) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T135) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T135) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

type p25T136 struct{ p25Embedded }

func (*p25T136) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T137 struct{ p25Embedded }

func (*p25T137) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T137) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T138 struct{ p25Embedded }

func (p25T138) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T138) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T139 struct{ p25Embedded }

func (*p25T139) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T139) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T139) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T140 struct{ p25Embedded }

func (p25T140) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T140) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T141 struct{ p25Embedded }

func (*p25T141) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T141) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T141) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T142 struct{ p25Embedded }

func (p25T142) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T142) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T142) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T143 struct{ p25Embedded }

func (*p25T143) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T143) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T143) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T143) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

type p25T144 struct{ p25Embedded }

func (p25T144) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T145 struct{ p25Embedded }

func (*p25T145) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T145) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T146 struct{ p25Embedded }

func (p25T146) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T146) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T147 struct{ p25Embedded }

func (*p25T147) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T147) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T147) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T148 struct{ p25Embedded }

func (p25T148) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T148) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T149 struct{ p25Embedded }

func (*p25T149) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T149) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T149) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T150 struct{ p25Embedded }

func (p25T150) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T150) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T150) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T151 struct{ p25Embedded }

func (*p25T151) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T151) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T151) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T151) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T152 struct{ p25Embedded }

func (*p25T152) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T152) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T153 struct{ p25Embedded }

func (*p25T153) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T153) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T153) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T154 struct{ p25Embedded }

func (p25T154) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T154) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T154) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T155 struct{ p25Embedded }

func (*p25T155) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T155) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T155) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T155) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T156 struct{ p25Embedded }

func (p25T156) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T156) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T156) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T157 struct{ p25Embedded }

func (*p25T157) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T157) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T157) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T157) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T158 struct{ p25Embedded }

func (p25T158) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T158) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T158) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T158) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T159 struct{ p25Embedded }

func (*p25T159) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T159) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T159) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T159) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T159) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

type p25T160 struct{ p25Embedded }

func (p25T160) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T161 struct{ p25Embedded }

func (*p25T161) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T161) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T162 struct{ p25Embedded }

func (p25T162) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T162) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T163 struct{ p25Embedded }

func (*p25T163) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T163) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T163) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T164 struct{ p25Embedded }

func (p25T164) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T164) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T165 struct{ p25Embedded }

func (*p25T165) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T165) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T165) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T166 struct{ p25Embedded }

func (p25T166) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T166) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T166) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T167 struct{ p25Embedded }

func (*p25T167) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T167) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T167) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T167) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T168 struct{ p25Embedded }

func (*p25T168) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T168) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T169 struct{ p25Embedded }

func (*p25T169) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T169) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T169) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T170 struct{ p25Embedded }

func (p25T170) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T170) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T170) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T171 struct{ p25Embedded }

func (*p25T171) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T171) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T171) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T171) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T172 struct{ p25Embedded }

func (p25T172) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T172) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T172) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T173 struct{ p25Embedded }

func (*p25T173) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T173) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T173) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T173) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T174 struct{ p25Embedded }

func (p25T174) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T174) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T174) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T174) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T175 struct{ p25Embedded }

func (*p25T175) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T175) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T175) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T175) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T175) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T176 struct{ p25Embedded }

func (p25T176) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T176) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T177 struct{ p25Embedded }

func (*p25T177) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T177) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T177) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T178 struct{ p25Embedded }

func (p25T178) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T178) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T178) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T179 struct{ p25Embedded }

func (*p25T179) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T179) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T179) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T179) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T180 struct{ p25Embedded }

func (p25T180) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T180) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T180) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T181 struct{ p25Embedded }

func (*p25T181) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T181) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T181) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T181) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T182 struct{ p25Embedded }

func (p25T182) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T182) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T182) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T182) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T183 struct{ p25Embedded }

func (*p25T183) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T183) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T183) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T183) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T183) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T184 struct{ p25Embedded }

func (*p25T184) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T184) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T184) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T185 struct{ p25Embedded }

func (*p25T185) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T185) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T185) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T185) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T186 struct{ p25Embedded }

func (p25T186) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T186) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T186) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T186) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T187 struct{ p25Embedded }

func (*p25T187) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T187) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T187) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T187) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T187) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T188 struct{ p25Embedded }

func (p25T188) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T188) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T188) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T188) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T189 struct{ p25Embedded }

func (*p25T189) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T189) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T189) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T189) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T189) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T190 struct{ p25Embedded }

func (p25T190) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T190) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T190) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T190) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T190) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T191 struct{ p25Embedded }

func (*p25T191) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T191) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T191) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T191) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T191) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T191) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

type p25T192 struct{ p25Embedded }

func (p25T192) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T193 struct{ p25Embedded }

func (*p25T193) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T193) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T194 struct{ p25Embedded }

func (p25T194) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T194) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T195 struct{ p25Embedded }

func (*p25T195) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T195) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T195) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T196 struct{ p25Embedded }

func (p25T196) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T196) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T197 struct{ p25Embedded }

func (*p25T197) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T197) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T197) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T198 struct{ p25Embedded }

func (p25T198) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T198) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T198) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T199 struct{ p25Embedded }

func (*p25T199) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T199) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T199) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T199) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T200 struct{ p25Embedded }

func (*p25T200) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T200) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T201 struct{ p25Embedded }

func (*p25T201) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T201) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T201) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T202 struct{ p25Embedded }

func (p25T202) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T202) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T202) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T203 struct{ p25Embedded }

func (*p25T203) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T203) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T203) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T203) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T204 struct{ p25Embedded }

func (p25T204) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T204) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T204) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T205 struct{ p25Embedded }

func (*p25T205) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T205) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T205) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T205) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T206 struct{ p25Embedded }

func (p25T206) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T206) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T206) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T206) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T207 struct{ p25Embedded }

func (*p25T207) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T207) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T207) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T207) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T207) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T208 struct{ p25Embedded }

func (p25T208) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T208) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T209 struct{ p25Embedded }

func (*p25T209) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T209) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T209) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T210 struct{ p25Embedded }

func (p25T210) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T210) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T210) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T211 struct{ p25Embedded }

func (*p25T211) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T211) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T211) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T211) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T212 struct{ p25Embedded }

func (p25T212) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T212) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T212) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T213 struct{ p25Embedded }

func (*p25T213) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T213) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T213) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T213) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T214 struct{ p25Embedded }

func (p25T214) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T214) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T214) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T214) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T215 struct{ p25Embedded }

func (*p25T215) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T215) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T215) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T215) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T215) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T216 struct{ p25Embedded }

func (*p25T216) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T216) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T216) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T217 struct{ p25Embedded }

func (*p25T217) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T217) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T217) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T217) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T218 struct{ p25Embedded }

func (p25T218) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T218) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T218) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T218) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T219 struct{ p25Embedded }

func (*p25T219) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T219) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T219) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T219) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T219) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T220 struct{ p25Embedded }

func (p25T220) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T220) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T220) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T220) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T221 struct{ p25Embedded }

func (*p25T221) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T221) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T221) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T221) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T221) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T222 struct{ p25Embedded }

func (p25T222) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T222) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T222) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T222) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T222) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T223 struct{ p25Embedded }

func (*p25T223) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T223) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T223) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T223) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T223) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T223) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T224 struct{ p25Embedded }

func (p25T224) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T224) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T225 struct{ p25Embedded }

func (*p25T225) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T225) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T225) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T226 struct{ p25Embedded }

func (p25T226) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T226) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T226) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T227 struct{ p25Embedded }

func (*p25T227) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T227) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T227) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T227) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T228 struct{ p25Embedded }

func (p25T228) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T228) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T228) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T229 struct{ p25Embedded }

func (*p25T229) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T229) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T229) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T229) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T230 struct{ p25Embedded }

func (p25T230) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T230) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T230) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T230) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T231 struct{ p25Embedded }

func (*p25T231) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T231) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T231) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T231) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T231) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T232 struct{ p25Embedded }

func (*p25T232) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T232) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T232) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T233 struct{ p25Embedded }

func (*p25T233) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T233) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T233) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T233) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T234 struct{ p25Embedded }

func (p25T234) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T234) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T234) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T234) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T235 struct{ p25Embedded }

func (*p25T235) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T235) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T235) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T235) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T235) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T236 struct{ p25Embedded }

func (p25T236) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T236) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T236) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T236) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T237 struct{ p25Embedded }

func (*p25T237) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T237) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T237) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T237) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T237) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T238 struct{ p25Embedded }

func (p25T238) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T238) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T238) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T238) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T238) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T239 struct{ p25Embedded }

func (*p25T239) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T239) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T239) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T239) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T239) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T239) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T240 struct{ p25Embedded }

func (p25T240) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T240) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T240) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T241 struct{ p25Embedded }

func (*p25T241) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T241) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T241) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T241) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T242 struct{ p25Embedded }

func (p25T242) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T242) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T242) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T242) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T243 struct{ p25Embedded }

func (*p25T243) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T243) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T243) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T243) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T243) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T244 struct{ p25Embedded }

func (p25T244) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T244) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T244) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T244) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T245 struct{ p25Embedded }

func (*p25T245) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T245) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T245) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T245) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T245) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T246 struct{ p25Embedded }

func (p25T246) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T246) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T246) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T246) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T246) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T247 struct{ p25Embedded }

func (*p25T247) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T247) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T247) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T247) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T247) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T247) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T248 struct{ p25Embedded }

func (*p25T248) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T248) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T248) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T248) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T249 struct{ p25Embedded }

func (*p25T249) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T249) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T249) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T249) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T249) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T250 struct{ p25Embedded }

func (p25T250) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T250) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T250) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T250) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T250) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T251 struct{ p25Embedded }

func (*p25T251) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T251) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T251) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T251) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T251) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T251) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T252 struct{ p25Embedded }

func (p25T252) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T252) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T252) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T252) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T252) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T253 struct{ p25Embedded }

func (*p25T253) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T253) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T253) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T253) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T253) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T253) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T254 struct{ p25Embedded }

func (p25T254) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T254) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T254) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T254) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T254) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T254) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T255 struct{ p25Embedded }

func (*p25T255) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T255) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T255) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T255) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T255) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T255) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T255) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

type p25T256 struct{}

func (p25T256) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T257 struct{}

func (*p25T257) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T257) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T258 struct{}

func (p25T258) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T258) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T259 struct{}

func (*p25T259) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T259) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T259) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T260 struct{}

func (p25T260) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T260) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T261 struct{}

func (*p25T261) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T261) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T261) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T262 struct{}

func (p25T262) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T262) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T262) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T263 struct{}

func (*p25T263) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T263) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T263) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T263) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T264 struct{}

func (*p25T264) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T264) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T265 struct{}

func (*p25T265) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T265) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T265) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T266 struct{}

func (p25T266) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T266) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T266) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T267 struct{}

func (*p25T267) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T267) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T267) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T267) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T268 struct{}

func (p25T268) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T268) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T268) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T269 struct{}

func (*p25T269) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T269) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T269) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T269) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T270 struct{}

func (p25T270) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T270) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T270) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T270) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T271 struct{}

func (*p25T271) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T271) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T271) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T271) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T271) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T272 struct{}

func (p25T272) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T272) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T273 struct{}

func (*p25T273) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T273) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T273) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T274 struct{}

func (p25T274) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T274) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T274) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T275 struct{}

func (*p25T275) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T275) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T275) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T275) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T276 struct{}

func (p25T276) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T276) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T276) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T277 struct{}

func (*p25T277) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T277) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T277) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T277) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T278 struct{}

func (p25T278) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T278) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T278) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T278) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T279 struct{}

func (*p25T279) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T279) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T279) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T279) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T279) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T280 struct{}

func (*p25T280) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T280) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T280) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T281 struct{}

func (*p25T281) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T281) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T281) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T281) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T282 struct{}

func (p25T282) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T282) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T282) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T282) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T283 struct{}

func (*p25T283) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T283) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T283) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T283) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T283) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T284 struct{}

func (p25T284) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T284) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T284) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T284) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T285 struct{}

func (*p25T285) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T285) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T285) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T285) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T285) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T286 struct{}

func (p25T286) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T286) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T286) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T286) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T286) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T287 struct{}

func (*p25T287) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T287) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T287) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T287) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T287) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T287) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T288 struct{}

func (p25T288) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T288) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T289 struct{}

func (*p25T289) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T289) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T289) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T290 struct{}

func (p25T290) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T290) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T290) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T291 struct{}

func (*p25T291) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T291) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T291) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T291) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T292 struct{}

func (p25T292) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T292) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T292) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T293 struct{}

func (*p25T293) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T293) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T293) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T293) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T294 struct{}

func (p25T294) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T294) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T294) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T294) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T295 struct{}

func (*p25T295) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T295) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T295) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T295) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T295) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T296 struct{}

func (*p25T296) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T296) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T296) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T297 struct{}

func (*p25T297) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T297) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T297) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T297) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T298 struct{}

func (p25T298) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T298) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T298) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T298) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T299 struct{}

func (*p25T299) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T299) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T299) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T299) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T299) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T300 struct{}

func (p25T300) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T300) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T300) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T300) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T301 struct{}

func (*p25T301) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T301) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T301) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T301) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T301) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T302 struct{}

func (p25T302) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T302) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T302) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T302) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T302) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T303 struct{}

func (*p25T303) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T303) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T303) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T303) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T303) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T303) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T304 struct{}

func (p25T304) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T304) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T304) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T305 struct{}

func (*p25T305) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T305) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T305) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T305) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T306 struct{}

func (p25T306) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T306) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T306) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T306) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T307 struct{}

func (*p25T307) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T307) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T307) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T307) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T307) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T308 struct{}

func (p25T308) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T308) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T308) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T308) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T309 struct{}

func (*p25T309) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T309) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T309) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T309) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T309) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T310 struct{}

func (p25T310) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T310) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T310) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T310) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T310) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T311 struct{}

func (*p25T311) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T311) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T311) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T311) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T311) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T311) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T312 struct{}

func (*p25T312) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T312) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T312) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T312) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T313 struct{}

func (*p25T313) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T313) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T313) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T313) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T313) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T314 struct{}

func (p25T314) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T314) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T314) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T314) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T314) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T315 struct{}

func (*p25T315) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T315) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T315) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T315) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T315) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T315) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T316 struct{}

func (p25T316) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T316) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T316) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T316) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T316) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T317 struct{}

func (*p25T317) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T317) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T317) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T317) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T317) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T317) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T318 struct{}

func (p25T318) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T318) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T318) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T318) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T318) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T318) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T319 struct{}

func (*p25T319) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T319) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T319) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T319) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T319) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T319) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T319) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T320 struct{}

func (p25T320) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T320) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T321 struct{}

func (*p25T321) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T321) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T321) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T322 struct{}

func (p25T322) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T322) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T322) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T323 struct{}

func (*p25T323) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T323) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T323) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T323) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T324 struct{}

func (p25T324) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T324) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T324) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T325 struct{}

func (*p25T325) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T325) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T325) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T325) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T326 struct{}

func (p25T326) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T326) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T326) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T326) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T327 struct{}

func (*p25T327) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T327) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T327) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T327) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T327) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T328 struct{}

func (*p25T328) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T328) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T328) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T329 struct{}

func (*p25T329) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T329) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T329) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T329) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T330 struct{}

func (p25T330) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T330) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T330) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T330) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T331 struct{}

func (*p25T331) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T331) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T331) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T331) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T331) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T332 struct{}

func (p25T332) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T332) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T332) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T332) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T333 struct{}

func (*p25T333) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T333) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T333) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T333) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T333) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T334 struct{}

func (p25T334) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T334) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T334) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T334) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T334) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T335 struct{}

func (*p25T335) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T335) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T335) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T335) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T335) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T335) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T336 struct{}

func (p25T336) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T336) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T336) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T337 struct{}

func (*p25T337) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T337) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T337) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T337) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T338 struct{}

func (p25T338) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T338) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T338) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T338) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T339 struct{}

func (*p25T339) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T339) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T339) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T339) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T339) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T340 struct{}

func (p25T340) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T340) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T340) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T340) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T341 struct{}

func (*p25T341) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T341) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T341) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T341) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T341) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T342 struct{}

func (p25T342) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T342) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T342) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T342) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T342) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T343 struct{}

func (*p25T343) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T343) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T343) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T343) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T343) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T343) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T344 struct{}

func (*p25T344) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T344) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T344) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T344) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T345 struct{}

func (*p25T345) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T345) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T345) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T345) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T345) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T346 struct{}

func (p25T346) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T346) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T346) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T346) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T346) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T347 struct{}

func (*p25T347) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T347) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T347) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T347) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T347) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T347) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T348 struct{}

func (p25T348) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T348) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T348) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T348) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T348) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T349 struct{}

func (*p25T349) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T349) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T349) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T349) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T349) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T349) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T350 struct{}

func (p25T350) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T350) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T350) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T350) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T350) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T350) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T351 struct{}

func (*p25T351) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T351) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T351) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T351) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T351) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T351) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T351) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T352 struct{}

func (p25T352) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T352) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T352) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T353 struct{}

func (*p25T353) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T353) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T353) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T353) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T354 struct{}

func (p25T354) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T354) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T354) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T354) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T355 struct{}

func (*p25T355) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T355) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T355) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T355) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T355) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T356 struct{}

func (p25T356) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T356) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T356) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T356) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T357 struct{}

func (*p25T357) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T357) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T357) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T357) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T357) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T358 struct{}

func (p25T358) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T358) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T358) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T358) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T358) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T359 struct{}

func (*p25T359) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T359) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T359) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T359) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T359) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T359) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T360 struct{}

func (*p25T360) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T360) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T360) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T360) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T361 struct{}

func (*p25T361) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T361) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T361) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T361) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T361) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T362 struct{}

func (p25T362) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T362) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T362) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T362) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T362) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T363 struct{}

func (*p25T363) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T363) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T363) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T363) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T363) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T363) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T364 struct{}

func (p25T364) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T364) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T364) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T364) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T364) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T365 struct{}

func (*p25T365) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T365) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T365) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T365) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T365) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T365) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T366 struct{}

func (p25T366) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T366) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T366) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T366) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T366) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T366) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T367 struct{}

func (*p25T367) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T367) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T367) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T367) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T367) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T367) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T367) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T368 struct{}

func (p25T368) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T368) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T368) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T368) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T369 struct{}

func (*p25T369) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T369) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T369) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T369) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T369) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T370 struct{}

func (p25T370) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T370) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T370) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T370) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T370) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T371 struct{}

func (*p25T371) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T371) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T371) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T371) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T371) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T371) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T372 struct{}

func (p25T372) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T372) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T372) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T372) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T372) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T373 struct{}

func (*p25T373) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T373) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T373) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T373) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T373) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T373) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T374 struct{}

func (p25T374) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T374) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T374) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T374) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T374) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T374) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T375 struct{}

func (*p25T375) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T375) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T375) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T375) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T375) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T375) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T375) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T376 struct{}

func (*p25T376) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T376) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T376) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T376) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T376) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T377 struct{}

func (*p25T377) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T377) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T377) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T377) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T377) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T377) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T378 struct{}

func (p25T378) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T378) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T378) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T378) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T378) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T378) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T379 struct{}

func (*p25T379) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T379) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T379) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T379) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T379) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T379) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T379) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T380 struct{}

func (p25T380) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T380) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T380) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T380) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T380) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T380) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T381 struct{}

func (*p25T381) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T381) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T381) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T381) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T381) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T381) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T381) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T382 struct{}

func (p25T382) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T382) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T382) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T382) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T382) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T382) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T382) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T383 struct{}

func (*p25T383) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T383) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T383) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T383) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T383) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T383) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T383) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T383) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T384 struct{ p25Embedded }

func (p25T384) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T385 struct{ p25Embedded }

func (*p25T385) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T385) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T386 struct{ p25Embedded }

func (p25T386) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T386) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T387 struct{ p25Embedded }

func (*p25T387) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T387) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T387) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T388 struct{ p25Embedded }

func (p25T388) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T388) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T389 struct{ p25Embedded }

func (*p25T389) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T389) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T389) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T390 struct{ p25Embedded }

func (p25T390) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T390) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T390) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T391 struct{ p25Embedded }

func (*p25T391) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T391) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T391) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T391) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T392 struct{ p25Embedded }

func (*p25T392) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T392) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T393 struct{ p25Embedded }

func (*p25T393) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T393) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T393) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T394 struct{ p25Embedded }

func (p25T394) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T394) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T394) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T395 struct{ p25Embedded }

func (*p25T395) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T395) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T395) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T395) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T396 struct{ p25Embedded }

func (p25T396) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T396) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T396) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T397 struct{ p25Embedded }

func (*p25T397) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T397) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T397) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T397) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T398 struct{ p25Embedded }

func (p25T398) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T398) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T398) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T398) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T399 struct{ p25Embedded }

func (*p25T399) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T399) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T399) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T399) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T399) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T400 struct{ p25Embedded }

func (p25T400) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T400) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T401 struct{ p25Embedded }

func (*p25T401) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T401) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T401) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T402 struct{ p25Embedded }

func (p25T402) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T402) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T402) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T403 struct{ p25Embedded }

func (*p25T403) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T403) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T403) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T403) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T404 struct{ p25Embedded }

func (p25T404) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T404) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T404) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T405 struct{ p25Embedded }

func (*p25T405) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T405) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T405) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T405) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T406 struct{ p25Embedded }

func (p25T406) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T406) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T406) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T406) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T407 struct{ p25Embedded }

func (*p25T407) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T407) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T407) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T407) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T407) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T408 struct{ p25Embedded }

func (*p25T408) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T408) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T408) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T409 struct{ p25Embedded }

func (*p25T409) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T409) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T409) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T409) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T410 struct{ p25Embedded }

func (p25T410) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T410) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T410) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T410) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T411 struct{ p25Embedded }

func (*p25T411) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T411) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T411) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T411) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T411) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T412 struct{ p25Embedded }

func (p25T412) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T412) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T412) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T412) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T413 struct{ p25Embedded }

func (*p25T413) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T413) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T413) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T413) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T413) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T414 struct{ p25Embedded }

func (p25T414) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T414) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T414) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T414) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T414) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T415 struct{ p25Embedded }

func (*p25T415) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T415) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T415) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T415) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T415) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T415) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T416 struct{ p25Embedded }

func (p25T416) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T416) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T417 struct{ p25Embedded }

func (*p25T417) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T417) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T417) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T418 struct{ p25Embedded }

func (p25T418) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T418) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T418) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T419 struct{ p25Embedded }

func (*p25T419) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T419) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T419) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T419) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T420 struct{ p25Embedded }

func (p25T420) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T420) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T420) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T421 struct{ p25Embedded }

func (*p25T421) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T421) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T421) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T421) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T422 struct{ p25Embedded }

func (p25T422) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T422) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T422) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T422) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T423 struct{ p25Embedded }

func (*p25T423) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T423) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T423) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T423) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T423) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T424 struct{ p25Embedded }

func (*p25T424) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T424) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T424) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T425 struct{ p25Embedded }

func (*p25T425) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T425) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T425) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T425) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T426 struct{ p25Embedded }

func (p25T426) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T426) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T426) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T426) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T427 struct{ p25Embedded }

func (*p25T427) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T427) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T427) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T427) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T427) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T428 struct{ p25Embedded }

func (p25T428) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T428) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T428) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T428) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T429 struct{ p25Embedded }

func (*p25T429) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T429) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T429) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T429) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T429) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T430 struct{ p25Embedded }

func (p25T430) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T430) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T430) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T430) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T430) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T431 struct{ p25Embedded }

func (*p25T431) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T431) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T431) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T431) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T431) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T431) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T432 struct{ p25Embedded }

func (p25T432) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T432) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T432) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T433 struct{ p25Embedded }

func (*p25T433) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T433) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T433) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T433) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T434 struct{ p25Embedded }

func (p25T434) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T434) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T434) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T434) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T435 struct{ p25Embedded }

func (*p25T435) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T435) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T435) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T435) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T435) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T436 struct{ p25Embedded }

func (p25T436) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T436) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T436) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T436) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T437 struct{ p25Embedded }

func (*p25T437) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T437) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T437) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T437) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T437) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T438 struct{ p25Embedded }

func (p25T438) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T438) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T438) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T438) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T438) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T439 struct{ p25Embedded }

func (*p25T439) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T439) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T439) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T439) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T439) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T439) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T440 struct{ p25Embedded }

func (*p25T440) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T440) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T440) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T440) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T441 struct{ p25Embedded }

func (*p25T441) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T441) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T441) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T441) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T441) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T442 struct{ p25Embedded }

func (p25T442) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T442) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T442) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T442) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T442) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T443 struct{ p25Embedded }

func (*p25T443) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T443) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T443) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T443) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T443) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T443) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T444 struct{ p25Embedded }

func (p25T444) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T444) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T444) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T444) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T444) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T445 struct{ p25Embedded }

func (*p25T445) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T445) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T445) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T445) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T445) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T445) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T446 struct{ p25Embedded }

func (p25T446) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T446) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T446) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T446) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T446) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T446) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T447 struct{ p25Embedded }

func (*p25T447) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T447) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T447) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T447) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T447) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T447) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T447) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T448 struct{ p25Embedded }

func (p25T448) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T448) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T449 struct{ p25Embedded }

func (*p25T449) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T449) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T449) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T450 struct{ p25Embedded }

func (p25T450) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T450) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T450) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T451 struct{ p25Embedded }

func (*p25T451) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T451) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T451) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T451) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T452 struct{ p25Embedded }

func (p25T452) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T452) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T452) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T453 struct{ p25Embedded }

func (*p25T453) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T453) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T453) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T453) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T454 struct{ p25Embedded }

func (p25T454) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T454) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T454) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T454) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T455 struct{ p25Embedded }

func (*p25T455) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T455) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T455) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T455) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T455) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T456 struct{ p25Embedded }

func (*p25T456) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T456) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T456) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T457 struct{ p25Embedded }

func (*p25T457) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T457) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T457) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T457) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T458 struct{ p25Embedded }

func (p25T458) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T458) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T458) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T458) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T459 struct{ p25Embedded }

func (*p25T459) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T459) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T459) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T459) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T459) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T460 struct{ p25Embedded }

func (p25T460) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T460) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T460) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T460) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T461 struct{ p25Embedded }

func (*p25T461) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T461) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T461) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T461) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T461) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T462 struct{ p25Embedded }

func (p25T462) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T462) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T462) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T462) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T462) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T463 struct{ p25Embedded }

func (*p25T463) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T463) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T463) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T463) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T463) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T463) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T464 struct{ p25Embedded }

func (p25T464) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T464) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T464) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T465 struct{ p25Embedded }

func (*p25T465) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T465) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T465) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T465) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T466 struct{ p25Embedded }

func (p25T466) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T466) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T466) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T466) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T467 struct{ p25Embedded }

func (*p25T467) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T467) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T467) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T467) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T467) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T468 struct{ p25Embedded }

func (p25T468) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T468) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T468) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T468) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T469 struct{ p25Embedded }

func (*p25T469) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T469) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T469) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T469) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T469) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T470 struct{ p25Embedded }

func (p25T470) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T470) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T470) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T470) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T470) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T471 struct{ p25Embedded }

func (*p25T471) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T471) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T471) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T471) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T471) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T471) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T472 struct{ p25Embedded }

func (*p25T472) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T472) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T472) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T472) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T473 struct{ p25Embedded }

func (*p25T473) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T473) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T473) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T473) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T473) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T474 struct{ p25Embedded }

func (p25T474) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T474) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T474) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T474) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T474) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T475 struct{ p25Embedded }

func (*p25T475) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T475) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T475) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T475) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T475) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T475) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T476 struct{ p25Embedded }

func (p25T476) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T476) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T476) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T476) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T476) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T477 struct{ p25Embedded }

func (*p25T477) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T477) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T477) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T477) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T477) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T477) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T478 struct{ p25Embedded }

func (p25T478) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T478) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T478) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T478) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T478) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T478) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T479 struct{ p25Embedded }

func (*p25T479) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T479) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T479) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T479) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T479) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T479) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T479) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T480 struct{ p25Embedded }

func (p25T480) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T480) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T480) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T481 struct{ p25Embedded }

func (*p25T481) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T481) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T481) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T481) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T482 struct{ p25Embedded }

func (p25T482) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T482) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T482) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T482) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T483 struct{ p25Embedded }

func (*p25T483) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T483) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T483) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T483) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T483) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T484 struct{ p25Embedded }

func (p25T484) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T484) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T484) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T484) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T485 struct{ p25Embedded }

func (*p25T485) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T485) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T485) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T485) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T485) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T486 struct{ p25Embedded }

func (p25T486) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T486) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T486) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T486) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T486) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T487 struct{ p25Embedded }

func (*p25T487) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T487) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T487) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T487) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T487) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T487) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T488 struct{ p25Embedded }

func (*p25T488) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T488) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T488) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T488) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T489 struct{ p25Embedded }

func (*p25T489) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T489) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T489) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T489) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T489) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T490 struct{ p25Embedded }

func (p25T490) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T490) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T490) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T490) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T490) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T491 struct{ p25Embedded }

func (*p25T491) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T491) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T491) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T491) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T491) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T491) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T492 struct{ p25Embedded }

func (p25T492) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T492) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T492) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T492) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T492) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T493 struct{ p25Embedded }

func (*p25T493) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T493) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T493) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T493) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T493) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T493) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T494 struct{ p25Embedded }

func (p25T494) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T494) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T494) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T494) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T494) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T494) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T495 struct{ p25Embedded }

func (*p25T495) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T495) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T495) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T495) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T495) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T495) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T495) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T496 struct{ p25Embedded }

func (p25T496) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T496) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T496) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T496) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T497 struct{ p25Embedded }

func (*p25T497) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T497) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T497) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T497) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T497) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T498 struct{ p25Embedded }

func (p25T498) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T498) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T498) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T498) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T498) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T499 struct{ p25Embedded }

func (*p25T499) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T499) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T499) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T499) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T499) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T499) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T500 struct{ p25Embedded }

func (p25T500) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T500) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T500) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T500) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T500) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T501 struct{ p25Embedded }

func (*p25T501) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T501) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T501) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T501) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T501) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T501) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T502 struct{ p25Embedded }

func (p25T502) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T502) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T502) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T502) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T502) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T502) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T503 struct{ p25Embedded }

func (*p25T503) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T503) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T503) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (p25T503) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T503) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T503) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T503) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T504 struct{ p25Embedded }

func (*p25T504) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T504) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T504) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T504) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T504) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T505 struct{ p25Embedded }

func (*p25T505) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (*p25T505) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T505) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T505) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T505) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T505) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T506 struct{ p25Embedded }

func (p25T506) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T506) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T506) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T506) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T506) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T506) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T507 struct{ p25Embedded }

func (*p25T507) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T507) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (*p25T507) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T507) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T507) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T507) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T507) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T508 struct{ p25Embedded }

func (p25T508) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T508) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T508) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T508) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T508) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T508) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T509 struct{ p25Embedded }

func (*p25T509) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T509) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T509) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T509) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T509) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T509) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T509) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T510 struct{ p25Embedded }

func (p25T510) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T510) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T510) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T510) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T510) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T510) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T510) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }

type p25T511 struct{ p25Embedded }

func (*p25T511) HandleGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleGet") }

func (p25T511) HandlePost(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandlePost") }

func (p25T511) HandleOptions(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleOptions") }

func (*p25T511) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowedMethod") }

func (p25T511) HandlePut(w http.ResponseWriter, r *http.Request, args *nm.Args) { p25Serve(w, r, args, "HandlePut") }

func (p25T511) HandleCustomThing(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleCustomThing") }

func (p25T511) ServeGet(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "ServeGet") }

func (p25T511) HandleNotAllowed(w http.ResponseWriter, r *http.Request, args *nm.Args) bool { return p25Serve(w, r, args, "HandleNotAllowed") }
