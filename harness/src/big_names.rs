// Written by tools/gen_big.py.
pub const N: usize = 530;
macro_rules! big_names {
    ($m:ident $($x:tt)*) => {
        $m! { $($x)*
            0 "0"
            1 "00"
            2 "T003"
            3 "T012"
            4 "T021"
            5 "T030"
            6 "T102"
            7 "T111"
            8 "T120"
            9 "T201"
            10 "T210"
            11 "T300"
            12 "lpha"
            13 "0x1"
            14 "back\u{5c}nslash"
            15 "\u{e9}"
            16 "True"
            17 "a\u{5f}b"
            18 "t"
            19 "xxxxxxxxx"
            20 "type"
            21 "A\u{200d}"
            22 "r\u{23}a"
            23 "\u{28}\u{29}"
            24 "\u{df}"
            25 "\u{26}\u{27}static\u{20}str"
            26 "a\u{2e}b"
            27 "\u{20}Alpha\u{20}"
            28 "quote\u{2019}s"
            29 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            30 "T089"
            31 "T098"
            32 "T179"
            33 "T188"
            34 "T197"
            35 "T269"
            36 "T278"
            37 "T287"
            38 "T296"
            39 "\u{212a}elvin"
            40 "\u{1f600}"
            41 "xxxxx"
            42 "\u{60}"
            43 "T039"
            44 "T048"
            45 "T057"
            46 "T066"
            47 "T075"
            48 "T084"
            49 "T093"
            50 "T129"
            51 "T138"
            52 "T147"
            53 "T156"
            54 "T165"
            55 "T174"
            56 "T183"
            57 "T192"
            58 "T219"
            59 "T228"
            60 "T237"
            61 "T246"
            62 "T255"
            63 "T264"
            64 "T273"
            65 "T282"
            66 "T291"
            67 "T309"
            68 "T318"
            69 "T327"
            70 "T336"
            71 "\u{feff}Alpha"
            72 "abbb"
            73 "babb"
            74 "bbab"
            75 "bbba"
            76 "T007"
            77 "T016"
            78 "T025"
            79 "T034"
            80 "T043"
            81 "T052"
            82 "T061"
            83 "T070"
            84 "T106"
            85 "T115"
            86 "T124"
            87 "T133"
            88 "T142"
            89 "T151"
            90 "T160"
            91 "T205"
            92 "T214"
            93 "T223"
            94 "T232"
            95 "T241"
            96 "T250"
            97 "T304"
            98 "T313"
            99 "T322"
            100 "T331"
            101 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            102 "1\u{2e}0"
            103 "T002"
            104 "T011"
            105 "T020"
            106 "T101"
            107 "T110"
            108 "T200"
            109 "e\u{301}"
            110 "xxxxxxxxxxxxxx"
            111 "bbb"
            112 "x"
            113 "\u{3c}Qualified\u{20}as\u{20}Tr\u{3e}"
            114 "aLPHA"
            115 "\u{2a}"
            116 "\u{23}7"
            117 "v1\u{2e}2\u{2e}3"
            118 "value"
            119 "\u{5c}n"
            120 "\u{131}"
            121 "\u{3c3}"
            122 "\u{1f600}\u{1f600}"
            123 "\u{130}stanbul"
            124 "xxxxxxxxxx"
            125 "dotted\u{2e}path\u{2e}to"
            126 "i"
            127 "\u{60}\u{60}"
            128 "a\u{2d}b"
            129 "1e3"
            130 "None"
            131 "Alpha1"
            132 "\u{a}Alpha"
            133 "T079"
            134 "T088"
            135 "T097"
            136 "T169"
            137 "T178"
            138 "T187"
            139 "T196"
            140 "T259"
            141 "T268"
            142 "T277"
            143 "T286"
            144 "T295"
            145 "0b11"
            146 "PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPb"
            147 "bPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP"
            148 "ns\u{7c}Name"
            149 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            150 "a\u{3c}b\u{3e}"
            151 "T029"
            152 "T038"
            153 "T047"
            154 "T056"
            155 "T065"
            156 "T074"
            157 "T083"
            158 "T092"
            159 "T119"
            160 "T128"
            161 "T137"
            162 "T146"
            163 "T155"
            164 "T164"
            165 "T173"
            166 "T182"
            167 "T191"
            168 "T209"
            169 "T218"
            170 "T227"
            171 "T236"
            172 "T245"
            173 "T254"
            174 "T263"
            175 "T272"
            176 "T281"
            177 "T290"
            178 "T308"
            179 "T317"
            180 "T326"
            181 "T335"
            182 "xxxxxx"
            183 "aabb"
            184 "abab"
            185 "abba"
            186 "baab"
            187 "baba"
            188 "bbaa"
            189 "Alpha\u{0}"
            190 "T006"
            191 "T015"
            192 "T024"
            193 "T033"
            194 "T042"
            195 "T051"
            196 "T060"
            197 "T105"
            198 "T114"
            199 "T123"
            200 "T132"
            201 "T141"
            202 "T150"
            203 "T204"
            204 "T213"
            205 "T222"
            206 "T231"
            207 "T240"
            208 "T303"
            209 "T312"
            210 "T321"
            211 "T330"
            212 "content"
            213 "\u{2e}"
            214 "\u{2d}1"
            215 "T001"
            216 "T010"
            217 "T100"
            218 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            219 "\u{c5}"
            220 "abb"
            221 "bab"
            222 "bba"
            223 "Beta"
            224 "xxxxxxxxxxxxxxx"
            225 "xx"
            226 "dyn\u{20}Alpha"
            227 "\u{24}"
            228 "\u{130}"
            229 "true"
            230 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            231 "Alphaa"
            232 "bb"
            233 "\u{410}"
            234 "\u{3c2}"
            235 "\u{fb00}"
            236 "Alpha\u{200b}"
            237 "null"
            238 "ss"
            239 "\u{25}s"
            240 "Alpha\u{d}\u{a}"
            241 "T299"
            242 "\u{e000}"
            243 "xxxxxxxxxxx"
            244 "Alpha"
            245 "alphA"
            246 "c"
            247 "Alpha\u{9}"
            248 "T069"
            249 "T078"
            250 "T087"
            251 "T096"
            252 "T159"
            253 "T168"
            254 "T177"
            255 "T186"
            256 "T195"
            257 "T249"
            258 "T258"
            259 "T267"
            260 "T276"
            261 "T285"
            262 "T294"
            263 "T339"
            264 "SCREAMING\u{5f}CASE\u{5f}IT"
            265 "PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPa"
            266 "aPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP"
            267 "\u{a0}Alpha"
            268 "x\u{b2}"
            269 "T019"
            270 "T028"
            271 "T037"
            272 "T046"
            273 "T055"
            274 "T064"
            275 "T073"
            276 "T082"
            277 "T091"
            278 "T109"
            279 "T118"
            280 "T127"
            281 "T136"
            282 "T145"
            283 "T154"
            284 "T163"
            285 "T172"
            286 "T181"
            287 "T190"
            288 "T208"
            289 "T217"
            290 "T226"
            291 "T235"
            292 "T244"
            293 "T253"
            294 "T262"
            295 "T271"
            296 "T280"
            297 "T307"
            298 "T316"
            299 "T325"
            300 "T334"
            301 "\u{5b}u8\u{3b}\u{20}3\u{5d}"
            302 "007"
            303 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            304 "path\u{3a}\u{3a}to\u{3a}\u{3a}Shape"
            305 "aaab"
            306 "aaba"
            307 "abaa"
            308 "baaa"
            309 "Alph"
            310 "a\u{3a}\u{3a}b"
            311 "T005"
            312 "T014"
            313 "T023"
            314 "T032"
            315 "T041"
            316 "T050"
            317 "T104"
            318 "T113"
            319 "T122"
            320 "T131"
            321 "T140"
            322 "T203"
            323 "T212"
            324 "T221"
            325 "T230"
            326 "T302"
            327 "T311"
            328 "T320"
            329 "PPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPPP"
            330 "xxxxxxx"
            331 "T000"
            332 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            333 "aab"
            334 "aba"
            335 "baa"
            336 "SS"
            337 "camelCaseThing"
            338 "r\u{23}match"
            339 "\u{ff21}lpha"
            340 "xxxxxxxxxxxxxxxx"
            341 "PascalCaseThing"
            342 "xxx"
            343 "ab"
            344 "ba"
            345 "percent\u{25}41"
            346 "\u{0}\u{0}"
            347 "caf\u{e9}s"
            348 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            349 "tag"
            350 "a\u{2b}b"
            351 "T199"
            352 "T289"
            353 "T298"
            354 "b"
            355 "T059"
            356 "T068"
            357 "T077"
            358 "T086"
            359 "T095"
            360 "T149"
            361 "T158"
            362 "T167"
            363 "T176"
            364 "T185"
            365 "T194"
            366 "T239"
            367 "T248"
            368 "T257"
            369 "T266"
            370 "T275"
            371 "T284"
            372 "T293"
            373 "T329"
            374 "T338"
            375 "A\u{30a}"
            376 "xxxxxxxxxxxx"
            377 "NULL"
            378 "T009"
            379 "T018"
            380 "T027"
            381 "T036"
            382 "T045"
            383 "T054"
            384 "T063"
            385 "T072"
            386 "T081"
            387 "T090"
            388 "T108"
            389 "T117"
            390 "T126"
            391 "T135"
            392 "T144"
            393 "T153"
            394 "T162"
            395 "T171"
            396 "T180"
            397 "T207"
            398 "T216"
            399 "T225"
            400 "T234"
            401 "T243"
            402 "T252"
            403 "T261"
            404 "T270"
            405 "T306"
            406 "T315"
            407 "T324"
            408 "T333"
            409 "Stra\u{df}en"
            410 "en\u{2013}dash"
            411 "aaaa"
            412 "1"
            413 "ALPHA"
            414 "01"
            415 "T004"
            416 "T013"
            417 "T022"
            418 "T031"
            419 "T040"
            420 "T103"
            421 "T112"
            422 "T121"
            423 "T130"
            424 "T202"
            425 "T211"
            426 "T220"
            427 "T301"
            428 "T310"
            429 "\u{28}u8\u{2c}\u{20}u16\u{29}"
            430 "with\u{20}some\u{20}spaces"
            431 "\u{7b}\u{7d}"
            432 "\u{7b}0\u{7d}"
            433 "Box\u{3c}Alpha\u{3e}"
            434 "\u{20}Alpha"
            435 "Alpha\u{20}"
            436 "Al\u{20}pha"
            437 "\u{5c}u0041lpha"
            438 "\u{2e}\u{2e}"
            439 "xxxxxxxx"
            440 "aaa"
            441 "ff"
            442 "\u{27}"
            443 "\u{3a}\u{3a}a"
            444 "a\u{3a}\u{3a}"
            445 "\u{0}"
            446 "\u{3a3}"
            447 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            448 "kebab\u{2d}case\u{2d}word"
            449 "I"
            450 "\u{22}"
            451 "\u{d7ff}"
            452 "\u{212b}"
            453 "ns\u{3a}Name"
            454 "aa"
            455 "a\u{2f}b"
            456 "xxxxxxxxxxxxxxxxx"
            457 "xxxx"
            458 "slash\u{2f}ed\u{2f}path"
            459 "T099"
            460 "T189"
            461 "T198"
            462 "T279"
            463 "T288"
            464 "T297"
            465 "snake\u{5f}case\u{5f}name"
            466 "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
            467 "\u{10ffff}"
            468 "\u{26}lt\u{3b}entity\u{26}gt\u{3b}"
            469 "a"
            470 "\u{5b}\u{5d}"
            471 "T049"
            472 "T058"
            473 "T067"
            474 "T076"
            475 "T085"
            476 "T094"
            477 "T139"
            478 "T148"
            479 "T157"
            480 "T166"
            481 "T175"
            482 "T184"
            483 "T193"
            484 "T229"
            485 "T238"
            486 "T247"
            487 "T256"
            488 "T265"
            489 "T274"
            490 "T283"
            491 "T292"
            492 "T319"
            493 "T328"
            494 "T337"
            495 "alpha"
            496 "bbbb"
            497 "crate\u{3a}\u{3a}a"
            498 "\u{5c}"
            499 "T008"
            500 "T017"
            501 "T026"
            502 "T035"
            503 "T044"
            504 "T053"
            505 "T062"
            506 "T071"
            507 "T080"
            508 "T107"
            509 "T116"
            510 "T125"
            511 "T134"
            512 "T143"
            513 "T152"
            514 "T161"
            515 "T170"
            516 "T206"
            517 "T215"
            518 "T224"
            519 "T233"
            520 "T242"
            521 "T251"
            522 "T260"
            523 "T305"
            524 "T314"
            525 "T323"
            526 "T332"
            527 "xxxxxxxxxxxxx"
            528 "soft\u{ad}hyphen"
            529 "Generic\u{3c}u8\u{3e}"
        }
    };
}
