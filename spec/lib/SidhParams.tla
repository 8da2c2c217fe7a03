----------------------------- MODULE SidhParams -----------------------------
(* Frozen SIKE round-2 base points (canonical little-endian bytes of re, im).  Generated once. *)
EXTENDS Naturals, Sequences

P434_AP == << <<72,203,70,150,39,237,80,74,92,210,97,134,171,158,225,80,233,97,187,178,12,80,132,124,95,112,149,25,98,175,117,100,14,58,230,61,230,113,108,76,122,15,10,146,230,99,3,3,80,240,225,197,207,60,0>>,
   <<80,234,227,105,248,70,82,112,125,201,35,216,71,128,214,128,254,16,148,36,196,108,129,168,132,210,38,35,178,28,148,137,209,198,250,157,59,61,87,14,246,32,69,146,138,109,218,237,64,120,174,28,28,173,1>> >>
P434_AQ == << <<108,12,235,13,188,42,221,125,239,55,178,100,63,225,88,192,215,244,66,189,113,171,180,198,237,162,26,243,97,244,217,100,182,192,45,212,175,243,247,56,235,102,246,136,227,156,240,252,14,52,56,23,70,199,0>>,
   <<245,133,28,214,226,50,116,25,71,120,81,174,114,66,175,234,131,114,226,161,64,205,196,20,38,43,250,87,105,46,163,26,211,194,251,134,21,71,126,166,180,42,104,208,13,50,93,215,80,127,21,55,222,37,0>> >>
P434_AR == << <<22,37,253,197,19,149,35,109,42,23,215,58,82,235,58,190,107,105,22,37,106,80,54,124,77,168,13,88,146,203,41,232,70,131,146,228,124,198,25,173,6,222,80,220,60,244,148,173,206,160,75,179,122,243,0>>,
   <<172,197,54,96,128,249,19,112,152,142,85,179,209,137,228,223,139,219,63,95,176,144,223,232,231,78,110,237,233,155,216,76,248,156,180,149,8,65,143,32,44,144,243,67,53,167,144,126,101,106,208,46,202,150,1>> >>
P434_BP == << <<169,183,55,6,59,87,70,95,228,233,101,159,99,126,217,179,252,250,157,0,252,139,54,55,236,149,88,232,170,86,96,70,103,214,195,208,108,44,106,64,109,194,35,226,49,59,240,22,216,167,94,134,100,134,0>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P434_BQ == << <<70,56,61,218,6,20,158,219,95,102,185,25,28,36,11,140,57,231,177,232,129,54,6,235,99,76,249,202,123,69,16,91,198,46,195,102,66,59,184,153,175,218,251,193,132,191,148,230,88,37,101,215,132,46,1>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P434_BR == << <<108,183,82,138,81,206,137,26,245,167,191,172,203,12,74,143,26,217,142,196,137,14,233,253,180,81,63,120,116,32,18,162,181,120,204,161,100,138,143,42,117,112,120,232,2,224,231,255,212,86,114,89,40,205,1>>,
   <<228,106,115,4,196,203,75,209,195,118,39,189,119,251,82,190,32,43,12,203,14,118,58,246,182,219,71,181,155,45,107,212,170,38,79,162,191,157,164,209,135,129,24,177,32,132,204,208,141,215,144,50,7,71,1>> >>
P503_AP == << <<120,22,133,75,39,104,188,112,230,44,119,195,32,130,211,31,226,85,97,120,203,205,0,234,97,17,106,223,116,51,231,238,231,94,145,44,15,236,251,197,215,146,26,97,62,34,67,216,97,192,3,197,146,29,188,20,250,37,56,160,49,237,2>>,
   <<210,21,249,129,85,155,72,154,221,32,119,248,190,186,243,87,27,250,178,124,161,208,198,251,31,133,120,154,180,104,121,222,216,143,192,215,169,59,60,96,189,85,93,224,28,106,248,123,155,169,128,242,174,91,75,171,187,143,68,233,228,228,30>> >>
P503_AQ == << <<97,100,97,103,177,74,96,13,41,106,248,170,255,159,65,113,204,146,95,97,162,245,47,184,218,162,79,19,127,31,98,27,222,105,154,191,157,128,141,208,37,121,182,135,133,186,101,249,167,57,128,25,50,153,139,58,24,198,226,168,246,92,50>>,
   <<177,125,229,21,7,90,85,250,100,185,132,102,60,186,165,26,44,252,127,223,42,205,215,26,188,151,64,98,208,152,93,116,255,238,127,207,114,24,161,119,107,53,30,145,160,78,179,69,72,211,158,224,138,48,114,139,10,230,200,148,4,123,62>> >>
P503_AR == << <<159,206,200,10,85,73,109,2,16,199,128,223,115,221,174,229,230,241,76,53,55,99,243,169,22,4,122,66,57,79,21,108,162,92,89,251,211,201,179,234,224,5,9,50,94,238,44,25,252,106,46,68,150,22,76,165,29,127,52,31,207,36,61>>,
   <<152,148,2,156,100,81,63,153,215,222,111,0,211,49,148,33,143,79,228,88,110,214,166,90,55,70,13,217,210,178,42,203,114,60,194,18,194,86,81,200,148,176,200,13,170,61,208,117,151,213,172,8,139,238,220,5,238,76,142,162,158,134,6>> >>
P503_BP == << <<223,186,120,161,233,17,206,206,69,247,158,60,106,199,88,210,165,102,139,122,121,2,93,43,176,239,5,16,123,94,21,64,120,105,115,45,12,27,75,181,180,5,89,183,198,90,234,203,23,70,247,122,112,192,5,203,208,158,233,209,63,208,50>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P503_BQ == << <<83,77,194,34,68,247,202,93,152,45,229,251,197,56,219,5,221,171,180,107,157,206,190,213,218,136,209,188,59,106,220,167,125,187,46,247,147,70,73,198,221,74,229,4,203,91,199,218,24,131,162,63,207,36,93,103,118,48,118,116,74,1,57>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P503_BR == << <<34,181,44,91,217,17,176,122,208,211,10,102,37,14,86,125,193,149,127,75,41,40,245,245,100,87,114,75,171,92,130,178,184,219,15,112,103,37,114,45,84,199,151,67,90,77,12,255,207,240,87,237,88,33,191,184,255,72,208,95,70,193,0>>,
   <<88,23,152,33,151,22,213,48,195,149,10,70,227,52,220,87,115,230,150,130,131,212,199,231,64,55,113,94,15,105,22,121,49,18,23,45,91,160,223,67,185,122,250,59,72,240,189,199,184,226,52,144,51,219,120,30,190,136,104,70,101,129,40>> >>
P751_AP == << <<250,182,248,135,29,172,59,156,200,67,214,191,232,250,236,157,176,220,47,241,167,120,188,230,126,51,208,1,184,107,47,98,144,124,173,236,208,154,98,213,27,189,41,228,129,203,154,178,200,125,13,113,246,187,191,36,187,11,48,204,187,95,56,31,5,56,152,178,189,192,192,138,198,55,54,91,202,4,96,250,129,114,184,248,116,72,242,64,177,148,204,248,20,69>>,
   <<65,32,240,138,129,141,22,240,228,132,90,206,153,128,58,101,64,70,213,160,30,163,215,40,90,246,160,184,96,76,73,172,52,190,1,220,103,177,155,63,105,39,38,125,137,193,202,91,67,242,220,137,162,29,151,141,147,116,204,248,166,126,115,119,64,117,133,16,110,193,60,234,127,79,110,45,95,146,221,214,55,219,95,237,108,169,179,20,89,11,80,191,138,21>> >>
P751_AQ == << <<14,41,118,98,247,144,80,159,33,110,83,186,167,100,46,27,79,94,239,160,248,36,153,1,209,137,84,139,163,97,41,104,79,7,127,216,151,21,79,112,55,50,217,26,4,253,87,240,192,131,121,131,15,164,41,172,33,203,223,178,210,230,126,219,171,216,89,29,89,231,25,52,141,32,127,161,21,180,224,167,248,51,163,227,57,78,191,120,26,160,191,210,35,23>>,
   <<199,53,140,219,141,188,159,32,16,183,237,123,131,221,132,83,12,186,239,119,147,192,101,238,207,253,237,106,248,162,34,243,189,222,208,139,7,91,70,205,11,80,137,125,248,194,53,50,151,204,98,66,51,80,41,94,233,220,227,192,74,5,86,7,203,128,182,206,144,94,64,2,126,154,22,68,79,60,247,35,94,91,224,73,239,68,178,96,108,251,234,215,105,37>> >>
P751_AR == << <<187,37,117,22,81,48,175,55,156,124,158,238,67,183,90,175,21,154,82,28,35,231,1,2,126,56,92,25,35,198,76,228,189,62,33,77,58,118,146,87,237,64,28,175,120,208,12,96,179,62,195,168,87,147,162,25,7,163,229,8,240,204,41,175,131,200,83,188,67,227,59,127,6,154,234,122,71,223,151,131,172,159,81,99,201,139,78,150,13,60,127,224,102,96>>,
   <<101,81,218,250,7,177,101,60,209,131,52,68,117,119,88,121,233,10,110,0,197,131,159,227,9,217,144,227,28,136,120,56,0,252,251,220,60,137,180,40,19,142,43,183,16,137,252,79,37,146,201,21,126,85,72,90,176,2,58,251,8,58,254,245,197,79,96,195,47,50,76,6,179,12,175,162,5,189,18,18,243,181,78,20,74,188,73,66,73,6,44,12,227,80>> >>
P751_BP == << <<254,50,52,69,14,64,39,248,115,248,58,2,246,5,171,190,184,73,91,255,130,57,193,32,126,70,103,223,159,14,118,24,0,38,4,165,192,90,152,239,116,113,165,250,162,202,41,202,156,150,12,206,247,31,47,110,33,110,205,247,232,152,238,142,73,156,109,59,18,72,47,93,241,198,208,86,255,18,220,70,71,85,165,36,128,185,148,195,69,162,151,70,93,96>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P751_BQ == << <<241,208,140,15,54,115,105,218,211,160,106,46,19,213,103,131,64,53,165,97,164,84,253,186,139,51,40,154,243,57,72,250,7,83,212,2,69,240,215,114,65,113,174,233,104,156,217,117,163,111,66,197,150,175,9,84,222,159,138,75,133,138,170,155,194,30,147,173,77,126,10,122,50,204,249,112,169,188,92,76,147,109,185,168,14,126,189,60,128,129,71,84,249,91>>,
   <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>> >>
P751_BR == << <<227,159,167,134,1,149,232,51,246,107,86,130,75,84,237,89,154,26,194,156,115,228,79,253,11,104,221,204,5,167,27,125,172,22,103,71,122,27,173,13,228,100,67,54,35,231,165,216,228,192,130,246,209,139,29,1,155,61,181,59,132,37,51,28,141,249,195,137,247,27,99,187,136,133,243,17,212,108,160,2,31,234,233,127,246,133,149,128,212,5,74,18,229,85>>,
   <<33,200,6,186,81,248,27,97,100,171,102,114,7,68,156,94,5,8,166,174,200,239,220,232,28,239,47,111,230,57,181,33,244,55,214,94,135,22,74,105,91,81,34,38,155,130,33,49,47,27,47,167,249,145,135,168,156,199,233,183,149,224,175,12,31,194,182,132,193,220,10,56,67,193,4,180,197,98,50,149,33,135,20,58,181,232,105,117,204,214,175,126,197,90>> >>
=============================================================================
