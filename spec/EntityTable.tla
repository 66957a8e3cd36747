---------------------------- MODULE EntityTable -----------------------------
(* The named characters of HTML 4 and the apostrophe: code point, name as code points.                       *)
(* Written by tools/entities.py from the tables of Python's html.entities, not from the code under test.     *)
Entities == <<
  <<34, <<113, 117, 111, 116>>>>,
  <<38, <<97, 109, 112>>>>,
  <<39, <<97, 112, 111, 115>>>>,
  <<60, <<108, 116>>>>,
  <<62, <<103, 116>>>>,
  <<160, <<110, 98, 115, 112>>>>,
  <<161, <<105, 101, 120, 99, 108>>>>,
  <<162, <<99, 101, 110, 116>>>>,
  <<163, <<112, 111, 117, 110, 100>>>>,
  <<164, <<99, 117, 114, 114, 101, 110>>>>,
  <<165, <<121, 101, 110>>>>,
  <<166, <<98, 114, 118, 98, 97, 114>>>>,
  <<167, <<115, 101, 99, 116>>>>,
  <<168, <<117, 109, 108>>>>,
  <<169, <<99, 111, 112, 121>>>>,
  <<170, <<111, 114, 100, 102>>>>,
  <<171, <<108, 97, 113, 117, 111>>>>,
  <<172, <<110, 111, 116>>>>,
  <<173, <<115, 104, 121>>>>,
  <<174, <<114, 101, 103>>>>,
  <<175, <<109, 97, 99, 114>>>>,
  <<176, <<100, 101, 103>>>>,
  <<177, <<112, 108, 117, 115, 109, 110>>>>,
  <<178, <<115, 117, 112, 50>>>>,
  <<179, <<115, 117, 112, 51>>>>,
  <<180, <<97, 99, 117, 116, 101>>>>,
  <<181, <<109, 105, 99, 114, 111>>>>,
  <<182, <<112, 97, 114, 97>>>>,
  <<183, <<109, 105, 100, 100, 111, 116>>>>,
  <<184, <<99, 101, 100, 105, 108>>>>,
  <<185, <<115, 117, 112, 49>>>>,
  <<186, <<111, 114, 100, 109>>>>,
  <<187, <<114, 97, 113, 117, 111>>>>,
  <<188, <<102, 114, 97, 99, 49, 52>>>>,
  <<189, <<102, 114, 97, 99, 49, 50>>>>,
  <<190, <<102, 114, 97, 99, 51, 52>>>>,
  <<191, <<105, 113, 117, 101, 115, 116>>>>,
  <<192, <<65, 103, 114, 97, 118, 101>>>>,
  <<193, <<65, 97, 99, 117, 116, 101>>>>,
  <<194, <<65, 99, 105, 114, 99>>>>,
  <<195, <<65, 116, 105, 108, 100, 101>>>>,
  <<196, <<65, 117, 109, 108>>>>,
  <<197, <<65, 114, 105, 110, 103>>>>,
  <<198, <<65, 69, 108, 105, 103>>>>,
  <<199, <<67, 99, 101, 100, 105, 108>>>>,
  <<200, <<69, 103, 114, 97, 118, 101>>>>,
  <<201, <<69, 97, 99, 117, 116, 101>>>>,
  <<202, <<69, 99, 105, 114, 99>>>>,
  <<203, <<69, 117, 109, 108>>>>,
  <<204, <<73, 103, 114, 97, 118, 101>>>>,
  <<205, <<73, 97, 99, 117, 116, 101>>>>,
  <<206, <<73, 99, 105, 114, 99>>>>,
  <<207, <<73, 117, 109, 108>>>>,
  <<208, <<69, 84, 72>>>>,
  <<209, <<78, 116, 105, 108, 100, 101>>>>,
  <<210, <<79, 103, 114, 97, 118, 101>>>>,
  <<211, <<79, 97, 99, 117, 116, 101>>>>,
  <<212, <<79, 99, 105, 114, 99>>>>,
  <<213, <<79, 116, 105, 108, 100, 101>>>>,
  <<214, <<79, 117, 109, 108>>>>,
  <<215, <<116, 105, 109, 101, 115>>>>,
  <<216, <<79, 115, 108, 97, 115, 104>>>>,
  <<217, <<85, 103, 114, 97, 118, 101>>>>,
  <<218, <<85, 97, 99, 117, 116, 101>>>>,
  <<219, <<85, 99, 105, 114, 99>>>>,
  <<220, <<85, 117, 109, 108>>>>,
  <<221, <<89, 97, 99, 117, 116, 101>>>>,
  <<222, <<84, 72, 79, 82, 78>>>>,
  <<223, <<115, 122, 108, 105, 103>>>>,
  <<224, <<97, 103, 114, 97, 118, 101>>>>,
  <<225, <<97, 97, 99, 117, 116, 101>>>>,
  <<226, <<97, 99, 105, 114, 99>>>>,
  <<227, <<97, 116, 105, 108, 100, 101>>>>,
  <<228, <<97, 117, 109, 108>>>>,
  <<229, <<97, 114, 105, 110, 103>>>>,
  <<230, <<97, 101, 108, 105, 103>>>>,
  <<231, <<99, 99, 101, 100, 105, 108>>>>,
  <<232, <<101, 103, 114, 97, 118, 101>>>>,
  <<233, <<101, 97, 99, 117, 116, 101>>>>,
  <<234, <<101, 99, 105, 114, 99>>>>,
  <<235, <<101, 117, 109, 108>>>>,
  <<236, <<105, 103, 114, 97, 118, 101>>>>,
  <<237, <<105, 97, 99, 117, 116, 101>>>>,
  <<238, <<105, 99, 105, 114, 99>>>>,
  <<239, <<105, 117, 109, 108>>>>,
  <<240, <<101, 116, 104>>>>,
  <<241, <<110, 116, 105, 108, 100, 101>>>>,
  <<242, <<111, 103, 114, 97, 118, 101>>>>,
  <<243, <<111, 97, 99, 117, 116, 101>>>>,
  <<244, <<111, 99, 105, 114, 99>>>>,
  <<245, <<111, 116, 105, 108, 100, 101>>>>,
  <<246, <<111, 117, 109, 108>>>>,
  <<247, <<100, 105, 118, 105, 100, 101>>>>,
  <<248, <<111, 115, 108, 97, 115, 104>>>>,
  <<249, <<117, 103, 114, 97, 118, 101>>>>,
  <<250, <<117, 97, 99, 117, 116, 101>>>>,
  <<251, <<117, 99, 105, 114, 99>>>>,
  <<252, <<117, 117, 109, 108>>>>,
  <<253, <<121, 97, 99, 117, 116, 101>>>>,
  <<254, <<116, 104, 111, 114, 110>>>>,
  <<255, <<121, 117, 109, 108>>>>,
  <<338, <<79, 69, 108, 105, 103>>>>,
  <<339, <<111, 101, 108, 105, 103>>>>,
  <<352, <<83, 99, 97, 114, 111, 110>>>>,
  <<353, <<115, 99, 97, 114, 111, 110>>>>,
  <<376, <<89, 117, 109, 108>>>>,
  <<402, <<102, 110, 111, 102>>>>,
  <<710, <<99, 105, 114, 99>>>>,
  <<732, <<116, 105, 108, 100, 101>>>>,
  <<913, <<65, 108, 112, 104, 97>>>>,
  <<914, <<66, 101, 116, 97>>>>,
  <<915, <<71, 97, 109, 109, 97>>>>,
  <<916, <<68, 101, 108, 116, 97>>>>,
  <<917, <<69, 112, 115, 105, 108, 111, 110>>>>,
  <<918, <<90, 101, 116, 97>>>>,
  <<919, <<69, 116, 97>>>>,
  <<920, <<84, 104, 101, 116, 97>>>>,
  <<921, <<73, 111, 116, 97>>>>,
  <<922, <<75, 97, 112, 112, 97>>>>,
  <<923, <<76, 97, 109, 98, 100, 97>>>>,
  <<924, <<77, 117>>>>,
  <<925, <<78, 117>>>>,
  <<926, <<88, 105>>>>,
  <<927, <<79, 109, 105, 99, 114, 111, 110>>>>,
  <<928, <<80, 105>>>>,
  <<929, <<82, 104, 111>>>>,
  <<931, <<83, 105, 103, 109, 97>>>>,
  <<932, <<84, 97, 117>>>>,
  <<933, <<85, 112, 115, 105, 108, 111, 110>>>>,
  <<934, <<80, 104, 105>>>>,
  <<935, <<67, 104, 105>>>>,
  <<936, <<80, 115, 105>>>>,
  <<937, <<79, 109, 101, 103, 97>>>>,
  <<945, <<97, 108, 112, 104, 97>>>>,
  <<946, <<98, 101, 116, 97>>>>,
  <<947, <<103, 97, 109, 109, 97>>>>,
  <<948, <<100, 101, 108, 116, 97>>>>,
  <<949, <<101, 112, 115, 105, 108, 111, 110>>>>,
  <<950, <<122, 101, 116, 97>>>>,
  <<951, <<101, 116, 97>>>>,
  <<952, <<116, 104, 101, 116, 97>>>>,
  <<953, <<105, 111, 116, 97>>>>,
  <<954, <<107, 97, 112, 112, 97>>>>,
  <<955, <<108, 97, 109, 98, 100, 97>>>>,
  <<956, <<109, 117>>>>,
  <<957, <<110, 117>>>>,
  <<958, <<120, 105>>>>,
  <<959, <<111, 109, 105, 99, 114, 111, 110>>>>,
  <<960, <<112, 105>>>>,
  <<961, <<114, 104, 111>>>>,
  <<962, <<115, 105, 103, 109, 97, 102>>>>,
  <<963, <<115, 105, 103, 109, 97>>>>,
  <<964, <<116, 97, 117>>>>,
  <<965, <<117, 112, 115, 105, 108, 111, 110>>>>,
  <<966, <<112, 104, 105>>>>,
  <<967, <<99, 104, 105>>>>,
  <<968, <<112, 115, 105>>>>,
  <<969, <<111, 109, 101, 103, 97>>>>,
  <<977, <<116, 104, 101, 116, 97, 115, 121, 109>>>>,
  <<978, <<117, 112, 115, 105, 104>>>>,
  <<982, <<112, 105, 118>>>>,
  <<8194, <<101, 110, 115, 112>>>>,
  <<8195, <<101, 109, 115, 112>>>>,
  <<8201, <<116, 104, 105, 110, 115, 112>>>>,
  <<8204, <<122, 119, 110, 106>>>>,
  <<8205, <<122, 119, 106>>>>,
  <<8206, <<108, 114, 109>>>>,
  <<8207, <<114, 108, 109>>>>,
  <<8211, <<110, 100, 97, 115, 104>>>>,
  <<8212, <<109, 100, 97, 115, 104>>>>,
  <<8216, <<108, 115, 113, 117, 111>>>>,
  <<8217, <<114, 115, 113, 117, 111>>>>,
  <<8218, <<115, 98, 113, 117, 111>>>>,
  <<8220, <<108, 100, 113, 117, 111>>>>,
  <<8221, <<114, 100, 113, 117, 111>>>>,
  <<8222, <<98, 100, 113, 117, 111>>>>,
  <<8224, <<100, 97, 103, 103, 101, 114>>>>,
  <<8225, <<68, 97, 103, 103, 101, 114>>>>,
  <<8226, <<98, 117, 108, 108>>>>,
  <<8230, <<104, 101, 108, 108, 105, 112>>>>,
  <<8240, <<112, 101, 114, 109, 105, 108>>>>,
  <<8242, <<112, 114, 105, 109, 101>>>>,
  <<8243, <<80, 114, 105, 109, 101>>>>,
  <<8249, <<108, 115, 97, 113, 117, 111>>>>,
  <<8250, <<114, 115, 97, 113, 117, 111>>>>,
  <<8254, <<111, 108, 105, 110, 101>>>>,
  <<8260, <<102, 114, 97, 115, 108>>>>,
  <<8364, <<101, 117, 114, 111>>>>,
  <<8465, <<105, 109, 97, 103, 101>>>>,
  <<8472, <<119, 101, 105, 101, 114, 112>>>>,
  <<8476, <<114, 101, 97, 108>>>>,
  <<8482, <<116, 114, 97, 100, 101>>>>,
  <<8501, <<97, 108, 101, 102, 115, 121, 109>>>>,
  <<8592, <<108, 97, 114, 114>>>>,
  <<8593, <<117, 97, 114, 114>>>>,
  <<8594, <<114, 97, 114, 114>>>>,
  <<8595, <<100, 97, 114, 114>>>>,
  <<8596, <<104, 97, 114, 114>>>>,
  <<8629, <<99, 114, 97, 114, 114>>>>,
  <<8656, <<108, 65, 114, 114>>>>,
  <<8657, <<117, 65, 114, 114>>>>,
  <<8658, <<114, 65, 114, 114>>>>,
  <<8659, <<100, 65, 114, 114>>>>,
  <<8660, <<104, 65, 114, 114>>>>,
  <<8704, <<102, 111, 114, 97, 108, 108>>>>,
  <<8706, <<112, 97, 114, 116>>>>,
  <<8707, <<101, 120, 105, 115, 116>>>>,
  <<8709, <<101, 109, 112, 116, 121>>>>,
  <<8711, <<110, 97, 98, 108, 97>>>>,
  <<8712, <<105, 115, 105, 110>>>>,
  <<8713, <<110, 111, 116, 105, 110>>>>,
  <<8715, <<110, 105>>>>,
  <<8719, <<112, 114, 111, 100>>>>,
  <<8721, <<115, 117, 109>>>>,
  <<8722, <<109, 105, 110, 117, 115>>>>,
  <<8727, <<108, 111, 119, 97, 115, 116>>>>,
  <<8730, <<114, 97, 100, 105, 99>>>>,
  <<8733, <<112, 114, 111, 112>>>>,
  <<8734, <<105, 110, 102, 105, 110>>>>,
  <<8736, <<97, 110, 103>>>>,
  <<8743, <<97, 110, 100>>>>,
  <<8744, <<111, 114>>>>,
  <<8745, <<99, 97, 112>>>>,
  <<8746, <<99, 117, 112>>>>,
  <<8747, <<105, 110, 116>>>>,
  <<8756, <<116, 104, 101, 114, 101, 52>>>>,
  <<8764, <<115, 105, 109>>>>,
  <<8773, <<99, 111, 110, 103>>>>,
  <<8776, <<97, 115, 121, 109, 112>>>>,
  <<8800, <<110, 101>>>>,
  <<8801, <<101, 113, 117, 105, 118>>>>,
  <<8804, <<108, 101>>>>,
  <<8805, <<103, 101>>>>,
  <<8834, <<115, 117, 98>>>>,
  <<8835, <<115, 117, 112>>>>,
  <<8836, <<110, 115, 117, 98>>>>,
  <<8838, <<115, 117, 98, 101>>>>,
  <<8839, <<115, 117, 112, 101>>>>,
  <<8853, <<111, 112, 108, 117, 115>>>>,
  <<8855, <<111, 116, 105, 109, 101, 115>>>>,
  <<8869, <<112, 101, 114, 112>>>>,
  <<8901, <<115, 100, 111, 116>>>>,
  <<8968, <<108, 99, 101, 105, 108>>>>,
  <<8969, <<114, 99, 101, 105, 108>>>>,
  <<8970, <<108, 102, 108, 111, 111, 114>>>>,
  <<8971, <<114, 102, 108, 111, 111, 114>>>>,
  <<9001, <<108, 97, 110, 103>>>>,
  <<9002, <<114, 97, 110, 103>>>>,
  <<9674, <<108, 111, 122>>>>,
  <<9824, <<115, 112, 97, 100, 101, 115>>>>,
  <<9827, <<99, 108, 117, 98, 115>>>>,
  <<9829, <<104, 101, 97, 114, 116, 115>>>>,
  <<9830, <<100, 105, 97, 109, 115>>>> >>
=============================================================================
