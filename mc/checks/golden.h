/* Files written by the library as first published (commit 40f8b2a); see golden_run in checks/c22.c. */
static const uint8_t golden_key_file[32] = {
  190,59,41,29,211,213,38,14,142,106,145,6,216,224,103,228,132,204,1,146,30,22,101,57,
  52,158,145,255,194,215,81,255,
};
static const uint8_t golden_data[3116] = {
  2,2,0,0,0,0,0,0,41,122,171,28,109,190,239,16,49,242,83,20,245,182,87,8,
  57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,248,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,108,107,114,109,0,0,0,0,0,0,0,2,0,0,0,0,0,40,47,40,
  155,221,195,96,188,96,9,227,199,49,148,48,159,210,58,59,247,253,2,2,2,2,2,2,
  2,2,2,0,228,0,0,0,7,9,122,171,28,109,190,239,16,49,242,83,20,245,182,87,
  8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,248,17,2,0,2,0,242,0,
  0,0,40,243,196,16,215,60,122,28,192,226,249,23,221,213,104,46,53,25,137,207,114,218,
  113,14,161,74,37,131,66,62,199,213,15,2,0,0,0,0,0,40,88,140,71,39,100,196,
  5,92,197,125,205,226,43,2,228,191,155,121,64,91,200,15,199,117,151,133,49,170,95,122,
  174,93,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,108,107,114,109,2,0,152,0,0,0,0,2,0,66,1,0,0,81,245,58,142,12,
  120,244,176,231,36,74,164,119,165,187,178,184,216,70,92,72,1,2,0,242,0,0,0,40,
  243,196,16,215,60,122,28,192,226,249,23,221,213,104,46,53,25,137,207,114,218,113,14,161,
  74,37,131,66,62,199,213,15,2,0,0,0,0,0,40,88,140,71,39,100,196,5,92,197,
  125,205,226,43,2,228,191,155,121,64,91,200,15,199,117,151,133,49,170,95,122,174,93,3,
  3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,
  3,3,3,2,2,0,254,2,0,0,28,105,122,171,28,109,190,239,16,49,242,83,20,245,
  182,87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,248,17,1,0,2,0,
  96,2,0,0,79,41,27,153,5,29,12,21,153,7,232,103,18,76,188,214,249,70,115,118,
  2,141,161,104,29,176,50,222,100,176,106,151,52,2,0,54,3,0,0,40,182,66,116,27,
  115,82,51,22,63,37,90,87,103,205,210,1,151,125,175,230,94,116,248,83,35,74,125,102,
  175,34,72,227,108,107,114,109,2,0,20,2,0,0,0,2,0,134,3,0,0,81,197,210,
  78,223,95,1,147,65,166,152,40,43,238,78,204,43,254,4,46,11,4,4,4,4,4,4,
  4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,
  4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,
  4,4,4,4,4,4,4,4,4,2,2,0,116,4,0,0,63,73,122,171,28,109,190,239,
  16,49,242,83,20,245,182,87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,
  248,1,2,0,242,4,0,0,40,214,145,202,214,249,102,179,234,190,20,25,125,47,182,94,
  4,54,66,178,41,5,243,145,203,240,116,127,122,105,8,35,4,2,0,54,3,0,0,40,
  182,66,116,27,115,82,51,22,63,37,90,87,103,205,210,1,151,125,175,230,94,116,248,83,
  35,74,125,102,175,34,72,227,17,1,0,2,0,96,2,0,0,79,41,27,153,5,29,12,
  21,153,7,232,103,18,76,188,214,249,70,115,118,2,141,161,104,29,176,50,222,100,176,106,
  151,52,2,0,66,5,0,0,79,11,237,132,160,211,172,136,180,9,251,205,153,100,117,53,
  189,210,100,167,106,242,216,56,85,160,156,248,90,208,245,40,26,0,0,0,108,107,114,109,
  2,0,40,4,0,0,0,2,0,224,5,0,0,81,24,201,126,37,157,10,27,23,7,139,
  154,43,237,203,243,154,227,127,227,199,1,2,0,96,2,0,0,79,41,27,153,5,29,12,
  21,153,7,232,103,18,76,188,214,249,70,115,118,2,141,161,104,29,176,50,222,100,176,106,
  151,52,2,0,66,5,0,0,79,11,237,132,160,211,172,136,180,9,251,205,153,100,117,53,
  189,210,100,167,106,242,216,56,85,160,156,248,90,208,245,40,26,5,5,5,5,5,5,5,
  5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,
  5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,
  5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,
  5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,
  5,5,5,5,5,5,5,5,5,2,2,0,114,7,0,0,112,169,122,171,28,109,190,239,
  16,49,242,83,20,245,182,87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,
  249,1,2,0,212,6,0,0,79,43,125,48,207,175,48,151,148,136,81,1,145,19,251,133,
  145,110,39,167,182,12,50,185,87,224,34,171,232,241,217,142,128,2,0,82,8,0,0,40,
  213,152,45,190,232,26,71,146,89,201,124,253,141,95,155,44,211,68,120,120,14,230,30,47,
  153,142,62,135,212,35,44,15,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,108,107,114,109,2,0,136,6,
  0,0,0,2,0,162,8,0,0,79,127,114,170,135,26,221,134,234,221,52,142,32,204,143,
  83,89,141,197,41,224,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,
  6,6,6,6,6,6,6,6,6,6,6,6,6,2,2,0,204,9,0,0,175,137,122,171,
  28,109,190,239,16,49,242,83,20,245,182,87,8,57,138,219,12,125,142,223,0,193,130,67,
  4,197,134,71,250,17,1,0,2,0,42,11,0,0,40,109,94,44,211,252,74,9,238,104,
  39,232,45,227,34,154,114,103,237,40,91,140,9,35,80,140,75,232,212,12,33,61,173,2,
  0,82,8,0,0,40,213,152,45,190,232,26,71,146,89,201,124,253,141,95,155,44,211,68,
  120,120,14,230,30,47,153,142,62,135,212,35,44,15,1,2,0,212,6,0,0,79,43,125,
  48,207,175,48,151,148,136,81,1,145,19,251,133,145,110,39,167,182,12,50,185,87,224,34,
  171,232,241,217,142,128,2,0,122,11,0,0,81,241,127,10,124,96,90,45,24,56,146,22,
  174,137,47,195,120,77,100,79,150,231,74,66,90,207,53,176,199,79,246,18,114,0,0,0,
  0,0,108,107,114,109,2,0,128,9,0,0,0,2,0,28,12,0,0,79,56,9,219,52,
  89,131,217,115,55,239,13,48,198,6,34,240,219,6,45,197,1,2,0,42,11,0,0,40,
  109,94,44,211,252,74,9,238,104,39,232,45,227,34,154,114,103,237,40,91,140,9,35,80,
  140,75,232,212,12,33,61,173,2,0,82,8,0,0,40,213,152,45,190,232,26,71,146,89,
  201,124,253,141,95,155,44,211,68,120,120,14,230,30,47,153,142,62,135,212,35,44,15,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,2,2,0,174,13,0,0,252,233,122,171,28,109,
  190,239,16,49,242,83,20,245,182,87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,
  134,71,251,1,2,0,16,13,0,0,79,167,128,204,75,133,200,171,64,31,51,42,155,28,
  60,0,79,22,57,215,253,165,74,176,249,198,122,81,74,95,49,29,60,2,0,166,15,0,
  0,40,63,3,50,130,110,206,127,173,87,97,71,192,104,42,143,93,87,155,58,221,210,241,
  16,42,171,246,161,102,191,163,23,137,1,2,0,212,6,0,0,79,43,125,48,207,175,48,
  151,148,136,81,1,145,19,251,133,145,110,39,167,182,12,50,185,87,224,34,171,232,241,217,
  142,128,2,0,246,15,0,0,79,25,49,61,149,106,13,42,200,27,105,49,19,79,149,88,
  42,248,84,117,151,192,123,51,132,97,92,113,58,162,138,105,38,0,0,0,108,107,114,109,
  2,0,196,12,0,0,0,2,0,148,16,0,0,79,160,157,40,106,117,169,194,63,81,190,
  108,53,241,114,238,67,134,3,151,77,1,2,0,96,2,0,0,79,41,27,153,5,29,12,
  21,153,7,232,103,18,76,188,214,249,70,115,118,2,141,161,104,29,176,50,222,100,176,106,
  151,52,2,0,242,4,0,0,40,214,145,202,214,249,102,179,234,190,20,25,125,47,182,94,
  4,54,66,178,41,5,243,145,203,240,116,127,122,105,8,35,4,1,2,0,132,17,0,0,
  79,98,26,53,199,244,87,189,196,10,236,227,139,25,160,33,28,95,224,89,6,36,239,7,
  242,103,169,33,72,244,74,237,114,2,0,246,15,0,0,79,25,49,61,149,106,13,42,200,
  27,105,49,19,79,149,88,42,248,84,117,151,192,123,51,132,97,92,113,58,162,138,105,38,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,108,107,114,109,2,0,56,17,0,0,0,2,0,34,18,0,
  0,79,142,207,139,173,42,217,111,61,240,46,188,12,84,119,13,37,1,117,29,133,9,9,
  9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,
  9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,
  9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,
  9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,9,
  9,9,2,2,0,76,19,0,0,100,105,122,171,28,109,190,239,16,49,242,83,20,245,182,
  87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,248,1,2,0,242,4,0,
  0,40,214,145,202,214,249,102,179,234,190,20,25,125,47,182,94,4,54,66,178,41,5,243,
  145,203,240,116,127,122,105,8,35,4,2,0,20,20,0,0,40,22,7,191,199,44,199,179,
  45,162,48,4,53,42,38,195,117,190,47,106,173,38,78,48,73,17,11,163,131,17,10,253,
  212,1,2,0,242,0,0,0,40,243,196,16,215,60,122,28,192,226,249,23,221,213,104,46,
  53,25,137,207,114,218,113,14,161,74,37,131,66,62,199,213,15,2,0,100,20,0,0,79,
  55,91,180,30,180,61,251,90,191,127,2,193,240,39,218,155,5,131,119,179,210,149,197,20,
  24,99,72,201,76,4,122,124,2,2,0,160,21,0,0,0,137,122,171,28,109,190,239,16,
  49,242,83,20,245,182,87,8,57,138,219,12,125,142,223,0,193,130,67,4,197,134,71,250,
  1,2,0,160,21,0,0,40,39,164,247,97,148,243,192,54,162,130,176,227,225,104,109,163,
  196,33,135,163,162,115,52,111,211,15,198,59,192,247,106,138,2,0,82,8,0,0,40,213,
  152,45,190,232,26,71,146,89,201,124,253,141,95,155,44,211,68,120,120,14,230,30,47,153,
  142,62,135,212,35,44,15,1,2,0,240,21,0,0,79,109,248,161,114,154,143,137,234,199,
  255,35,69,142,250,129,238,43,160,141,81,5,18,218,132,1,221,245,136,113,226,104,64,2,
  0,166,15,0,0,40,63,3,50,130,110,206,127,173,87,97,71,192,104,42,143,93,87,155,
  58,221,210,241,16,42,171,246,161,102,191,163,23,137,1,2,0,2,21,0,0,79,126,41,
  222,177,239,216,217,23,32,47,237,188,106,29,247,150,90,175,62,141,241,5,23,112,154,61,
  175,102,234,115,226,172,2,0,142,22,0,0,79,68,237,184,71,18,243,83,52,255,120,139,
  147,132,206,1,169,101,97,242,152,38,213,180,240,23,210,178,236,202,247,157,36,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,108,107,114,109,2,0,0,19,0,0,0,2,0,44,23,0,0,79,
  67,84,24,83,4,200,121,87,246,214,94,202,57,52,216,203,125,111,123,3,
};
