---- MODULE UnicodeTable ----
(* Generated by tools/mkunicode.py from the Unicode 15.0.0 character database:
   <<code, word character, white space, lower case, upper case, lower mapping, upper mapping, canonical decomposition (one step),
     compatibility decomposition (one step), combining class, excluded from composition>> *)
EXTENDS Integers, Sequences
UTable == <<
<<0, FALSE, FALSE, FALSE, FALSE, <<0>>, <<0>>, <<>>, <<>>, 0, FALSE>>,
<<1, FALSE, FALSE, FALSE, FALSE, <<1>>, <<1>>, <<>>, <<>>, 0, FALSE>>,
<<2, FALSE, FALSE, FALSE, FALSE, <<2>>, <<2>>, <<>>, <<>>, 0, FALSE>>,
<<3, FALSE, FALSE, FALSE, FALSE, <<3>>, <<3>>, <<>>, <<>>, 0, FALSE>>,
<<4, FALSE, FALSE, FALSE, FALSE, <<4>>, <<4>>, <<>>, <<>>, 0, FALSE>>,
<<5, FALSE, FALSE, FALSE, FALSE, <<5>>, <<5>>, <<>>, <<>>, 0, FALSE>>,
<<6, FALSE, FALSE, FALSE, FALSE, <<6>>, <<6>>, <<>>, <<>>, 0, FALSE>>,
<<7, FALSE, FALSE, FALSE, FALSE, <<7>>, <<7>>, <<>>, <<>>, 0, FALSE>>,
<<8, FALSE, FALSE, FALSE, FALSE, <<8>>, <<8>>, <<>>, <<>>, 0, FALSE>>,
<<9, FALSE, TRUE, FALSE, FALSE, <<9>>, <<9>>, <<>>, <<>>, 0, FALSE>>,
<<10, FALSE, TRUE, FALSE, FALSE, <<10>>, <<10>>, <<>>, <<>>, 0, FALSE>>,
<<11, FALSE, TRUE, FALSE, FALSE, <<11>>, <<11>>, <<>>, <<>>, 0, FALSE>>,
<<12, FALSE, TRUE, FALSE, FALSE, <<12>>, <<12>>, <<>>, <<>>, 0, FALSE>>,
<<13, FALSE, TRUE, FALSE, FALSE, <<13>>, <<13>>, <<>>, <<>>, 0, FALSE>>,
<<14, FALSE, FALSE, FALSE, FALSE, <<14>>, <<14>>, <<>>, <<>>, 0, FALSE>>,
<<15, FALSE, FALSE, FALSE, FALSE, <<15>>, <<15>>, <<>>, <<>>, 0, FALSE>>,
<<16, FALSE, FALSE, FALSE, FALSE, <<16>>, <<16>>, <<>>, <<>>, 0, FALSE>>,
<<17, FALSE, FALSE, FALSE, FALSE, <<17>>, <<17>>, <<>>, <<>>, 0, FALSE>>,
<<18, FALSE, FALSE, FALSE, FALSE, <<18>>, <<18>>, <<>>, <<>>, 0, FALSE>>,
<<19, FALSE, FALSE, FALSE, FALSE, <<19>>, <<19>>, <<>>, <<>>, 0, FALSE>>,
<<20, FALSE, FALSE, FALSE, FALSE, <<20>>, <<20>>, <<>>, <<>>, 0, FALSE>>,
<<21, FALSE, FALSE, FALSE, FALSE, <<21>>, <<21>>, <<>>, <<>>, 0, FALSE>>,
<<22, FALSE, FALSE, FALSE, FALSE, <<22>>, <<22>>, <<>>, <<>>, 0, FALSE>>,
<<23, FALSE, FALSE, FALSE, FALSE, <<23>>, <<23>>, <<>>, <<>>, 0, FALSE>>,
<<24, FALSE, FALSE, FALSE, FALSE, <<24>>, <<24>>, <<>>, <<>>, 0, FALSE>>,
<<25, FALSE, FALSE, FALSE, FALSE, <<25>>, <<25>>, <<>>, <<>>, 0, FALSE>>,
<<26, FALSE, FALSE, FALSE, FALSE, <<26>>, <<26>>, <<>>, <<>>, 0, FALSE>>,
<<27, FALSE, FALSE, FALSE, FALSE, <<27>>, <<27>>, <<>>, <<>>, 0, FALSE>>,
<<28, FALSE, FALSE, FALSE, FALSE, <<28>>, <<28>>, <<>>, <<>>, 0, FALSE>>,
<<29, FALSE, FALSE, FALSE, FALSE, <<29>>, <<29>>, <<>>, <<>>, 0, FALSE>>,
<<30, FALSE, FALSE, FALSE, FALSE, <<30>>, <<30>>, <<>>, <<>>, 0, FALSE>>,
<<31, FALSE, FALSE, FALSE, FALSE, <<31>>, <<31>>, <<>>, <<>>, 0, FALSE>>,
<<32, FALSE, TRUE, FALSE, FALSE, <<32>>, <<32>>, <<>>, <<>>, 0, FALSE>>,
<<33, FALSE, FALSE, FALSE, FALSE, <<33>>, <<33>>, <<>>, <<>>, 0, FALSE>>,
<<34, FALSE, FALSE, FALSE, FALSE, <<34>>, <<34>>, <<>>, <<>>, 0, FALSE>>,
<<35, FALSE, FALSE, FALSE, FALSE, <<35>>, <<35>>, <<>>, <<>>, 0, FALSE>>,
<<36, FALSE, FALSE, FALSE, FALSE, <<36>>, <<36>>, <<>>, <<>>, 0, FALSE>>,
<<37, FALSE, FALSE, FALSE, FALSE, <<37>>, <<37>>, <<>>, <<>>, 0, FALSE>>,
<<38, FALSE, FALSE, FALSE, FALSE, <<38>>, <<38>>, <<>>, <<>>, 0, FALSE>>,
<<39, FALSE, FALSE, FALSE, FALSE, <<39>>, <<39>>, <<>>, <<>>, 0, FALSE>>,
<<40, FALSE, FALSE, FALSE, FALSE, <<40>>, <<40>>, <<>>, <<>>, 0, FALSE>>,
<<41, FALSE, FALSE, FALSE, FALSE, <<41>>, <<41>>, <<>>, <<>>, 0, FALSE>>,
<<42, FALSE, FALSE, FALSE, FALSE, <<42>>, <<42>>, <<>>, <<>>, 0, FALSE>>,
<<43, FALSE, FALSE, FALSE, FALSE, <<43>>, <<43>>, <<>>, <<>>, 0, FALSE>>,
<<44, FALSE, FALSE, FALSE, FALSE, <<44>>, <<44>>, <<>>, <<>>, 0, FALSE>>,
<<45, FALSE, FALSE, FALSE, FALSE, <<45>>, <<45>>, <<>>, <<>>, 0, FALSE>>,
<<46, FALSE, FALSE, FALSE, FALSE, <<46>>, <<46>>, <<>>, <<>>, 0, FALSE>>,
<<47, FALSE, FALSE, FALSE, FALSE, <<47>>, <<47>>, <<>>, <<>>, 0, FALSE>>,
<<48, TRUE, FALSE, FALSE, FALSE, <<48>>, <<48>>, <<>>, <<>>, 0, FALSE>>,
<<49, TRUE, FALSE, FALSE, FALSE, <<49>>, <<49>>, <<>>, <<>>, 0, FALSE>>,
<<50, TRUE, FALSE, FALSE, FALSE, <<50>>, <<50>>, <<>>, <<>>, 0, FALSE>>,
<<51, TRUE, FALSE, FALSE, FALSE, <<51>>, <<51>>, <<>>, <<>>, 0, FALSE>>,
<<52, TRUE, FALSE, FALSE, FALSE, <<52>>, <<52>>, <<>>, <<>>, 0, FALSE>>,
<<53, TRUE, FALSE, FALSE, FALSE, <<53>>, <<53>>, <<>>, <<>>, 0, FALSE>>,
<<54, TRUE, FALSE, FALSE, FALSE, <<54>>, <<54>>, <<>>, <<>>, 0, FALSE>>,
<<55, TRUE, FALSE, FALSE, FALSE, <<55>>, <<55>>, <<>>, <<>>, 0, FALSE>>,
<<56, TRUE, FALSE, FALSE, FALSE, <<56>>, <<56>>, <<>>, <<>>, 0, FALSE>>,
<<57, TRUE, FALSE, FALSE, FALSE, <<57>>, <<57>>, <<>>, <<>>, 0, FALSE>>,
<<58, FALSE, FALSE, FALSE, FALSE, <<58>>, <<58>>, <<>>, <<>>, 0, FALSE>>,
<<59, FALSE, FALSE, FALSE, FALSE, <<59>>, <<59>>, <<>>, <<>>, 0, FALSE>>,
<<60, FALSE, FALSE, FALSE, FALSE, <<60>>, <<60>>, <<>>, <<>>, 0, FALSE>>,
<<61, FALSE, FALSE, FALSE, FALSE, <<61>>, <<61>>, <<>>, <<>>, 0, FALSE>>,
<<62, FALSE, FALSE, FALSE, FALSE, <<62>>, <<62>>, <<>>, <<>>, 0, FALSE>>,
<<63, FALSE, FALSE, FALSE, FALSE, <<63>>, <<63>>, <<>>, <<>>, 0, FALSE>>,
<<64, FALSE, FALSE, FALSE, FALSE, <<64>>, <<64>>, <<>>, <<>>, 0, FALSE>>,
<<65, TRUE, FALSE, FALSE, TRUE, <<97>>, <<65>>, <<>>, <<>>, 0, FALSE>>,
<<66, TRUE, FALSE, FALSE, TRUE, <<98>>, <<66>>, <<>>, <<>>, 0, FALSE>>,
<<67, TRUE, FALSE, FALSE, TRUE, <<99>>, <<67>>, <<>>, <<>>, 0, FALSE>>,
<<68, TRUE, FALSE, FALSE, TRUE, <<100>>, <<68>>, <<>>, <<>>, 0, FALSE>>,
<<69, TRUE, FALSE, FALSE, TRUE, <<101>>, <<69>>, <<>>, <<>>, 0, FALSE>>,
<<70, TRUE, FALSE, FALSE, TRUE, <<102>>, <<70>>, <<>>, <<>>, 0, FALSE>>,
<<71, TRUE, FALSE, FALSE, TRUE, <<103>>, <<71>>, <<>>, <<>>, 0, FALSE>>,
<<72, TRUE, FALSE, FALSE, TRUE, <<104>>, <<72>>, <<>>, <<>>, 0, FALSE>>,
<<73, TRUE, FALSE, FALSE, TRUE, <<105>>, <<73>>, <<>>, <<>>, 0, FALSE>>,
<<74, TRUE, FALSE, FALSE, TRUE, <<106>>, <<74>>, <<>>, <<>>, 0, FALSE>>,
<<75, TRUE, FALSE, FALSE, TRUE, <<107>>, <<75>>, <<>>, <<>>, 0, FALSE>>,
<<76, TRUE, FALSE, FALSE, TRUE, <<108>>, <<76>>, <<>>, <<>>, 0, FALSE>>,
<<77, TRUE, FALSE, FALSE, TRUE, <<109>>, <<77>>, <<>>, <<>>, 0, FALSE>>,
<<78, TRUE, FALSE, FALSE, TRUE, <<110>>, <<78>>, <<>>, <<>>, 0, FALSE>>,
<<79, TRUE, FALSE, FALSE, TRUE, <<111>>, <<79>>, <<>>, <<>>, 0, FALSE>>,
<<80, TRUE, FALSE, FALSE, TRUE, <<112>>, <<80>>, <<>>, <<>>, 0, FALSE>>,
<<81, TRUE, FALSE, FALSE, TRUE, <<113>>, <<81>>, <<>>, <<>>, 0, FALSE>>,
<<82, TRUE, FALSE, FALSE, TRUE, <<114>>, <<82>>, <<>>, <<>>, 0, FALSE>>,
<<83, TRUE, FALSE, FALSE, TRUE, <<115>>, <<83>>, <<>>, <<>>, 0, FALSE>>,
<<84, TRUE, FALSE, FALSE, TRUE, <<116>>, <<84>>, <<>>, <<>>, 0, FALSE>>,
<<85, TRUE, FALSE, FALSE, TRUE, <<117>>, <<85>>, <<>>, <<>>, 0, FALSE>>,
<<86, TRUE, FALSE, FALSE, TRUE, <<118>>, <<86>>, <<>>, <<>>, 0, FALSE>>,
<<87, TRUE, FALSE, FALSE, TRUE, <<119>>, <<87>>, <<>>, <<>>, 0, FALSE>>,
<<88, TRUE, FALSE, FALSE, TRUE, <<120>>, <<88>>, <<>>, <<>>, 0, FALSE>>,
<<89, TRUE, FALSE, FALSE, TRUE, <<121>>, <<89>>, <<>>, <<>>, 0, FALSE>>,
<<90, TRUE, FALSE, FALSE, TRUE, <<122>>, <<90>>, <<>>, <<>>, 0, FALSE>>,
<<91, FALSE, FALSE, FALSE, FALSE, <<91>>, <<91>>, <<>>, <<>>, 0, FALSE>>,
<<92, FALSE, FALSE, FALSE, FALSE, <<92>>, <<92>>, <<>>, <<>>, 0, FALSE>>,
<<93, FALSE, FALSE, FALSE, FALSE, <<93>>, <<93>>, <<>>, <<>>, 0, FALSE>>,
<<94, FALSE, FALSE, FALSE, FALSE, <<94>>, <<94>>, <<>>, <<>>, 0, FALSE>>,
<<95, TRUE, FALSE, FALSE, FALSE, <<95>>, <<95>>, <<>>, <<>>, 0, FALSE>>,
<<96, FALSE, FALSE, FALSE, FALSE, <<96>>, <<96>>, <<>>, <<>>, 0, FALSE>>,
<<97, TRUE, FALSE, TRUE, FALSE, <<97>>, <<65>>, <<>>, <<>>, 0, FALSE>>,
<<98, TRUE, FALSE, TRUE, FALSE, <<98>>, <<66>>, <<>>, <<>>, 0, FALSE>>,
<<99, TRUE, FALSE, TRUE, FALSE, <<99>>, <<67>>, <<>>, <<>>, 0, FALSE>>,
<<100, TRUE, FALSE, TRUE, FALSE, <<100>>, <<68>>, <<>>, <<>>, 0, FALSE>>,
<<101, TRUE, FALSE, TRUE, FALSE, <<101>>, <<69>>, <<>>, <<>>, 0, FALSE>>,
<<102, TRUE, FALSE, TRUE, FALSE, <<102>>, <<70>>, <<>>, <<>>, 0, FALSE>>,
<<103, TRUE, FALSE, TRUE, FALSE, <<103>>, <<71>>, <<>>, <<>>, 0, FALSE>>,
<<104, TRUE, FALSE, TRUE, FALSE, <<104>>, <<72>>, <<>>, <<>>, 0, FALSE>>,
<<105, TRUE, FALSE, TRUE, FALSE, <<105>>, <<73>>, <<>>, <<>>, 0, FALSE>>,
<<106, TRUE, FALSE, TRUE, FALSE, <<106>>, <<74>>, <<>>, <<>>, 0, FALSE>>,
<<107, TRUE, FALSE, TRUE, FALSE, <<107>>, <<75>>, <<>>, <<>>, 0, FALSE>>,
<<108, TRUE, FALSE, TRUE, FALSE, <<108>>, <<76>>, <<>>, <<>>, 0, FALSE>>,
<<109, TRUE, FALSE, TRUE, FALSE, <<109>>, <<77>>, <<>>, <<>>, 0, FALSE>>,
<<110, TRUE, FALSE, TRUE, FALSE, <<110>>, <<78>>, <<>>, <<>>, 0, FALSE>>,
<<111, TRUE, FALSE, TRUE, FALSE, <<111>>, <<79>>, <<>>, <<>>, 0, FALSE>>,
<<112, TRUE, FALSE, TRUE, FALSE, <<112>>, <<80>>, <<>>, <<>>, 0, FALSE>>,
<<113, TRUE, FALSE, TRUE, FALSE, <<113>>, <<81>>, <<>>, <<>>, 0, FALSE>>,
<<114, TRUE, FALSE, TRUE, FALSE, <<114>>, <<82>>, <<>>, <<>>, 0, FALSE>>,
<<115, TRUE, FALSE, TRUE, FALSE, <<115>>, <<83>>, <<>>, <<>>, 0, FALSE>>,
<<116, TRUE, FALSE, TRUE, FALSE, <<116>>, <<84>>, <<>>, <<>>, 0, FALSE>>,
<<117, TRUE, FALSE, TRUE, FALSE, <<117>>, <<85>>, <<>>, <<>>, 0, FALSE>>,
<<118, TRUE, FALSE, TRUE, FALSE, <<118>>, <<86>>, <<>>, <<>>, 0, FALSE>>,
<<119, TRUE, FALSE, TRUE, FALSE, <<119>>, <<87>>, <<>>, <<>>, 0, FALSE>>,
<<120, TRUE, FALSE, TRUE, FALSE, <<120>>, <<88>>, <<>>, <<>>, 0, FALSE>>,
<<121, TRUE, FALSE, TRUE, FALSE, <<121>>, <<89>>, <<>>, <<>>, 0, FALSE>>,
<<122, TRUE, FALSE, TRUE, FALSE, <<122>>, <<90>>, <<>>, <<>>, 0, FALSE>>,
<<123, FALSE, FALSE, FALSE, FALSE, <<123>>, <<123>>, <<>>, <<>>, 0, FALSE>>,
<<124, FALSE, FALSE, FALSE, FALSE, <<124>>, <<124>>, <<>>, <<>>, 0, FALSE>>,
<<125, FALSE, FALSE, FALSE, FALSE, <<125>>, <<125>>, <<>>, <<>>, 0, FALSE>>,
<<126, FALSE, FALSE, FALSE, FALSE, <<126>>, <<126>>, <<>>, <<>>, 0, FALSE>>,
<<127, FALSE, FALSE, FALSE, FALSE, <<127>>, <<127>>, <<>>, <<>>, 0, FALSE>>,
<<128, FALSE, FALSE, FALSE, FALSE, <<128>>, <<128>>, <<>>, <<>>, 0, FALSE>>,
<<129, FALSE, FALSE, FALSE, FALSE, <<129>>, <<129>>, <<>>, <<>>, 0, FALSE>>,
<<130, FALSE, FALSE, FALSE, FALSE, <<130>>, <<130>>, <<>>, <<>>, 0, FALSE>>,
<<131, FALSE, FALSE, FALSE, FALSE, <<131>>, <<131>>, <<>>, <<>>, 0, FALSE>>,
<<132, FALSE, FALSE, FALSE, FALSE, <<132>>, <<132>>, <<>>, <<>>, 0, FALSE>>,
<<133, FALSE, TRUE, FALSE, FALSE, <<133>>, <<133>>, <<>>, <<>>, 0, FALSE>>,
<<134, FALSE, FALSE, FALSE, FALSE, <<134>>, <<134>>, <<>>, <<>>, 0, FALSE>>,
<<135, FALSE, FALSE, FALSE, FALSE, <<135>>, <<135>>, <<>>, <<>>, 0, FALSE>>,
<<136, FALSE, FALSE, FALSE, FALSE, <<136>>, <<136>>, <<>>, <<>>, 0, FALSE>>,
<<137, FALSE, FALSE, FALSE, FALSE, <<137>>, <<137>>, <<>>, <<>>, 0, FALSE>>,
<<138, FALSE, FALSE, FALSE, FALSE, <<138>>, <<138>>, <<>>, <<>>, 0, FALSE>>,
<<139, FALSE, FALSE, FALSE, FALSE, <<139>>, <<139>>, <<>>, <<>>, 0, FALSE>>,
<<140, FALSE, FALSE, FALSE, FALSE, <<140>>, <<140>>, <<>>, <<>>, 0, FALSE>>,
<<141, FALSE, FALSE, FALSE, FALSE, <<141>>, <<141>>, <<>>, <<>>, 0, FALSE>>,
<<142, FALSE, FALSE, FALSE, FALSE, <<142>>, <<142>>, <<>>, <<>>, 0, FALSE>>,
<<143, FALSE, FALSE, FALSE, FALSE, <<143>>, <<143>>, <<>>, <<>>, 0, FALSE>>,
<<144, FALSE, FALSE, FALSE, FALSE, <<144>>, <<144>>, <<>>, <<>>, 0, FALSE>>,
<<145, FALSE, FALSE, FALSE, FALSE, <<145>>, <<145>>, <<>>, <<>>, 0, FALSE>>,
<<146, FALSE, FALSE, FALSE, FALSE, <<146>>, <<146>>, <<>>, <<>>, 0, FALSE>>,
<<147, FALSE, FALSE, FALSE, FALSE, <<147>>, <<147>>, <<>>, <<>>, 0, FALSE>>,
<<148, FALSE, FALSE, FALSE, FALSE, <<148>>, <<148>>, <<>>, <<>>, 0, FALSE>>,
<<149, FALSE, FALSE, FALSE, FALSE, <<149>>, <<149>>, <<>>, <<>>, 0, FALSE>>,
<<150, FALSE, FALSE, FALSE, FALSE, <<150>>, <<150>>, <<>>, <<>>, 0, FALSE>>,
<<151, FALSE, FALSE, FALSE, FALSE, <<151>>, <<151>>, <<>>, <<>>, 0, FALSE>>,
<<152, FALSE, FALSE, FALSE, FALSE, <<152>>, <<152>>, <<>>, <<>>, 0, FALSE>>,
<<153, FALSE, FALSE, FALSE, FALSE, <<153>>, <<153>>, <<>>, <<>>, 0, FALSE>>,
<<154, FALSE, FALSE, FALSE, FALSE, <<154>>, <<154>>, <<>>, <<>>, 0, FALSE>>,
<<155, FALSE, FALSE, FALSE, FALSE, <<155>>, <<155>>, <<>>, <<>>, 0, FALSE>>,
<<156, FALSE, FALSE, FALSE, FALSE, <<156>>, <<156>>, <<>>, <<>>, 0, FALSE>>,
<<157, FALSE, FALSE, FALSE, FALSE, <<157>>, <<157>>, <<>>, <<>>, 0, FALSE>>,
<<158, FALSE, FALSE, FALSE, FALSE, <<158>>, <<158>>, <<>>, <<>>, 0, FALSE>>,
<<159, FALSE, FALSE, FALSE, FALSE, <<159>>, <<159>>, <<>>, <<>>, 0, FALSE>>,
<<160, FALSE, TRUE, FALSE, FALSE, <<160>>, <<160>>, <<>>, <<32>>, 0, FALSE>>,
<<161, FALSE, FALSE, FALSE, FALSE, <<161>>, <<161>>, <<>>, <<>>, 0, FALSE>>,
<<162, FALSE, FALSE, FALSE, FALSE, <<162>>, <<162>>, <<>>, <<>>, 0, FALSE>>,
<<163, FALSE, FALSE, FALSE, FALSE, <<163>>, <<163>>, <<>>, <<>>, 0, FALSE>>,
<<164, FALSE, FALSE, FALSE, FALSE, <<164>>, <<164>>, <<>>, <<>>, 0, FALSE>>,
<<165, FALSE, FALSE, FALSE, FALSE, <<165>>, <<165>>, <<>>, <<>>, 0, FALSE>>,
<<166, FALSE, FALSE, FALSE, FALSE, <<166>>, <<166>>, <<>>, <<>>, 0, FALSE>>,
<<167, FALSE, FALSE, FALSE, FALSE, <<167>>, <<167>>, <<>>, <<>>, 0, FALSE>>,
<<168, FALSE, FALSE, FALSE, FALSE, <<168>>, <<168>>, <<>>, <<32,776>>, 0, FALSE>>,
<<169, FALSE, FALSE, FALSE, FALSE, <<169>>, <<169>>, <<>>, <<>>, 0, FALSE>>,
<<170, TRUE, FALSE, TRUE, FALSE, <<170>>, <<170>>, <<>>, <<97>>, 0, FALSE>>,
<<171, FALSE, FALSE, FALSE, FALSE, <<171>>, <<171>>, <<>>, <<>>, 0, FALSE>>,
<<172, FALSE, FALSE, FALSE, FALSE, <<172>>, <<172>>, <<>>, <<>>, 0, FALSE>>,
<<173, FALSE, FALSE, FALSE, FALSE, <<173>>, <<173>>, <<>>, <<>>, 0, FALSE>>,
<<174, FALSE, FALSE, FALSE, FALSE, <<174>>, <<174>>, <<>>, <<>>, 0, FALSE>>,
<<175, FALSE, FALSE, FALSE, FALSE, <<175>>, <<175>>, <<>>, <<32,772>>, 0, FALSE>>,
<<176, FALSE, FALSE, FALSE, FALSE, <<176>>, <<176>>, <<>>, <<>>, 0, FALSE>>,
<<177, FALSE, FALSE, FALSE, FALSE, <<177>>, <<177>>, <<>>, <<>>, 0, FALSE>>,
<<178, FALSE, FALSE, FALSE, FALSE, <<178>>, <<178>>, <<>>, <<50>>, 0, FALSE>>,
<<179, FALSE, FALSE, FALSE, FALSE, <<179>>, <<179>>, <<>>, <<51>>, 0, FALSE>>,
<<180, FALSE, FALSE, FALSE, FALSE, <<180>>, <<180>>, <<>>, <<32,769>>, 0, FALSE>>,
<<181, TRUE, FALSE, TRUE, FALSE, <<181>>, <<924>>, <<>>, <<956>>, 0, FALSE>>,
<<182, FALSE, FALSE, FALSE, FALSE, <<182>>, <<182>>, <<>>, <<>>, 0, FALSE>>,
<<183, FALSE, FALSE, FALSE, FALSE, <<183>>, <<183>>, <<>>, <<>>, 0, FALSE>>,
<<184, FALSE, FALSE, FALSE, FALSE, <<184>>, <<184>>, <<>>, <<32,807>>, 0, FALSE>>,
<<185, FALSE, FALSE, FALSE, FALSE, <<185>>, <<185>>, <<>>, <<49>>, 0, FALSE>>,
<<186, TRUE, FALSE, TRUE, FALSE, <<186>>, <<186>>, <<>>, <<111>>, 0, FALSE>>,
<<187, FALSE, FALSE, FALSE, FALSE, <<187>>, <<187>>, <<>>, <<>>, 0, FALSE>>,
<<188, FALSE, FALSE, FALSE, FALSE, <<188>>, <<188>>, <<>>, <<49,8260,52>>, 0, FALSE>>,
<<189, FALSE, FALSE, FALSE, FALSE, <<189>>, <<189>>, <<>>, <<49,8260,50>>, 0, FALSE>>,
<<190, FALSE, FALSE, FALSE, FALSE, <<190>>, <<190>>, <<>>, <<51,8260,52>>, 0, FALSE>>,
<<191, FALSE, FALSE, FALSE, FALSE, <<191>>, <<191>>, <<>>, <<>>, 0, FALSE>>,
<<192, TRUE, FALSE, FALSE, TRUE, <<224>>, <<192>>, <<65,768>>, <<65,768>>, 0, FALSE>>,
<<193, TRUE, FALSE, FALSE, TRUE, <<225>>, <<193>>, <<65,769>>, <<65,769>>, 0, FALSE>>,
<<194, TRUE, FALSE, FALSE, TRUE, <<226>>, <<194>>, <<65,770>>, <<65,770>>, 0, FALSE>>,
<<195, TRUE, FALSE, FALSE, TRUE, <<227>>, <<195>>, <<65,771>>, <<65,771>>, 0, FALSE>>,
<<196, TRUE, FALSE, FALSE, TRUE, <<228>>, <<196>>, <<65,776>>, <<65,776>>, 0, FALSE>>,
<<197, TRUE, FALSE, FALSE, TRUE, <<229>>, <<197>>, <<65,778>>, <<65,778>>, 0, FALSE>>,
<<198, TRUE, FALSE, FALSE, TRUE, <<230>>, <<198>>, <<>>, <<>>, 0, FALSE>>,
<<199, TRUE, FALSE, FALSE, TRUE, <<231>>, <<199>>, <<67,807>>, <<67,807>>, 0, FALSE>>,
<<200, TRUE, FALSE, FALSE, TRUE, <<232>>, <<200>>, <<69,768>>, <<69,768>>, 0, FALSE>>,
<<201, TRUE, FALSE, FALSE, TRUE, <<233>>, <<201>>, <<69,769>>, <<69,769>>, 0, FALSE>>,
<<202, TRUE, FALSE, FALSE, TRUE, <<234>>, <<202>>, <<69,770>>, <<69,770>>, 0, FALSE>>,
<<203, TRUE, FALSE, FALSE, TRUE, <<235>>, <<203>>, <<69,776>>, <<69,776>>, 0, FALSE>>,
<<204, TRUE, FALSE, FALSE, TRUE, <<236>>, <<204>>, <<73,768>>, <<73,768>>, 0, FALSE>>,
<<205, TRUE, FALSE, FALSE, TRUE, <<237>>, <<205>>, <<73,769>>, <<73,769>>, 0, FALSE>>,
<<206, TRUE, FALSE, FALSE, TRUE, <<238>>, <<206>>, <<73,770>>, <<73,770>>, 0, FALSE>>,
<<207, TRUE, FALSE, FALSE, TRUE, <<239>>, <<207>>, <<73,776>>, <<73,776>>, 0, FALSE>>,
<<208, TRUE, FALSE, FALSE, TRUE, <<240>>, <<208>>, <<>>, <<>>, 0, FALSE>>,
<<209, TRUE, FALSE, FALSE, TRUE, <<241>>, <<209>>, <<78,771>>, <<78,771>>, 0, FALSE>>,
<<210, TRUE, FALSE, FALSE, TRUE, <<242>>, <<210>>, <<79,768>>, <<79,768>>, 0, FALSE>>,
<<211, TRUE, FALSE, FALSE, TRUE, <<243>>, <<211>>, <<79,769>>, <<79,769>>, 0, FALSE>>,
<<212, TRUE, FALSE, FALSE, TRUE, <<244>>, <<212>>, <<79,770>>, <<79,770>>, 0, FALSE>>,
<<213, TRUE, FALSE, FALSE, TRUE, <<245>>, <<213>>, <<79,771>>, <<79,771>>, 0, FALSE>>,
<<214, TRUE, FALSE, FALSE, TRUE, <<246>>, <<214>>, <<79,776>>, <<79,776>>, 0, FALSE>>,
<<215, FALSE, FALSE, FALSE, FALSE, <<215>>, <<215>>, <<>>, <<>>, 0, FALSE>>,
<<216, TRUE, FALSE, FALSE, TRUE, <<248>>, <<216>>, <<>>, <<>>, 0, FALSE>>,
<<217, TRUE, FALSE, FALSE, TRUE, <<249>>, <<217>>, <<85,768>>, <<85,768>>, 0, FALSE>>,
<<218, TRUE, FALSE, FALSE, TRUE, <<250>>, <<218>>, <<85,769>>, <<85,769>>, 0, FALSE>>,
<<219, TRUE, FALSE, FALSE, TRUE, <<251>>, <<219>>, <<85,770>>, <<85,770>>, 0, FALSE>>,
<<220, TRUE, FALSE, FALSE, TRUE, <<252>>, <<220>>, <<85,776>>, <<85,776>>, 0, FALSE>>,
<<221, TRUE, FALSE, FALSE, TRUE, <<253>>, <<221>>, <<89,769>>, <<89,769>>, 0, FALSE>>,
<<222, TRUE, FALSE, FALSE, TRUE, <<254>>, <<222>>, <<>>, <<>>, 0, FALSE>>,
<<223, TRUE, FALSE, TRUE, FALSE, <<223>>, <<83,83>>, <<>>, <<>>, 0, FALSE>>,
<<224, TRUE, FALSE, TRUE, FALSE, <<224>>, <<192>>, <<97,768>>, <<97,768>>, 0, FALSE>>,
<<225, TRUE, FALSE, TRUE, FALSE, <<225>>, <<193>>, <<97,769>>, <<97,769>>, 0, FALSE>>,
<<226, TRUE, FALSE, TRUE, FALSE, <<226>>, <<194>>, <<97,770>>, <<97,770>>, 0, FALSE>>,
<<227, TRUE, FALSE, TRUE, FALSE, <<227>>, <<195>>, <<97,771>>, <<97,771>>, 0, FALSE>>,
<<228, TRUE, FALSE, TRUE, FALSE, <<228>>, <<196>>, <<97,776>>, <<97,776>>, 0, FALSE>>,
<<229, TRUE, FALSE, TRUE, FALSE, <<229>>, <<197>>, <<97,778>>, <<97,778>>, 0, FALSE>>,
<<230, TRUE, FALSE, TRUE, FALSE, <<230>>, <<198>>, <<>>, <<>>, 0, FALSE>>,
<<231, TRUE, FALSE, TRUE, FALSE, <<231>>, <<199>>, <<99,807>>, <<99,807>>, 0, FALSE>>,
<<232, TRUE, FALSE, TRUE, FALSE, <<232>>, <<200>>, <<101,768>>, <<101,768>>, 0, FALSE>>,
<<233, TRUE, FALSE, TRUE, FALSE, <<233>>, <<201>>, <<101,769>>, <<101,769>>, 0, FALSE>>,
<<234, TRUE, FALSE, TRUE, FALSE, <<234>>, <<202>>, <<101,770>>, <<101,770>>, 0, FALSE>>,
<<235, TRUE, FALSE, TRUE, FALSE, <<235>>, <<203>>, <<101,776>>, <<101,776>>, 0, FALSE>>,
<<236, TRUE, FALSE, TRUE, FALSE, <<236>>, <<204>>, <<105,768>>, <<105,768>>, 0, FALSE>>,
<<237, TRUE, FALSE, TRUE, FALSE, <<237>>, <<205>>, <<105,769>>, <<105,769>>, 0, FALSE>>,
<<238, TRUE, FALSE, TRUE, FALSE, <<238>>, <<206>>, <<105,770>>, <<105,770>>, 0, FALSE>>,
<<239, TRUE, FALSE, TRUE, FALSE, <<239>>, <<207>>, <<105,776>>, <<105,776>>, 0, FALSE>>,
<<240, TRUE, FALSE, TRUE, FALSE, <<240>>, <<208>>, <<>>, <<>>, 0, FALSE>>,
<<241, TRUE, FALSE, TRUE, FALSE, <<241>>, <<209>>, <<110,771>>, <<110,771>>, 0, FALSE>>,
<<242, TRUE, FALSE, TRUE, FALSE, <<242>>, <<210>>, <<111,768>>, <<111,768>>, 0, FALSE>>,
<<243, TRUE, FALSE, TRUE, FALSE, <<243>>, <<211>>, <<111,769>>, <<111,769>>, 0, FALSE>>,
<<244, TRUE, FALSE, TRUE, FALSE, <<244>>, <<212>>, <<111,770>>, <<111,770>>, 0, FALSE>>,
<<245, TRUE, FALSE, TRUE, FALSE, <<245>>, <<213>>, <<111,771>>, <<111,771>>, 0, FALSE>>,
<<246, TRUE, FALSE, TRUE, FALSE, <<246>>, <<214>>, <<111,776>>, <<111,776>>, 0, FALSE>>,
<<247, FALSE, FALSE, FALSE, FALSE, <<247>>, <<247>>, <<>>, <<>>, 0, FALSE>>,
<<248, TRUE, FALSE, TRUE, FALSE, <<248>>, <<216>>, <<>>, <<>>, 0, FALSE>>,
<<249, TRUE, FALSE, TRUE, FALSE, <<249>>, <<217>>, <<117,768>>, <<117,768>>, 0, FALSE>>,
<<250, TRUE, FALSE, TRUE, FALSE, <<250>>, <<218>>, <<117,769>>, <<117,769>>, 0, FALSE>>,
<<251, TRUE, FALSE, TRUE, FALSE, <<251>>, <<219>>, <<117,770>>, <<117,770>>, 0, FALSE>>,
<<252, TRUE, FALSE, TRUE, FALSE, <<252>>, <<220>>, <<117,776>>, <<117,776>>, 0, FALSE>>,
<<253, TRUE, FALSE, TRUE, FALSE, <<253>>, <<221>>, <<121,769>>, <<121,769>>, 0, FALSE>>,
<<254, TRUE, FALSE, TRUE, FALSE, <<254>>, <<222>>, <<>>, <<>>, 0, FALSE>>,
<<255, TRUE, FALSE, TRUE, FALSE, <<255>>, <<376>>, <<121,776>>, <<121,776>>, 0, FALSE>>,
<<256, TRUE, FALSE, FALSE, TRUE, <<257>>, <<256>>, <<65,772>>, <<65,772>>, 0, FALSE>>,
<<257, TRUE, FALSE, TRUE, FALSE, <<257>>, <<256>>, <<97,772>>, <<97,772>>, 0, FALSE>>,
<<258, TRUE, FALSE, FALSE, TRUE, <<259>>, <<258>>, <<65,774>>, <<65,774>>, 0, FALSE>>,
<<259, TRUE, FALSE, TRUE, FALSE, <<259>>, <<258>>, <<97,774>>, <<97,774>>, 0, FALSE>>,
<<260, TRUE, FALSE, FALSE, TRUE, <<261>>, <<260>>, <<65,808>>, <<65,808>>, 0, FALSE>>,
<<261, TRUE, FALSE, TRUE, FALSE, <<261>>, <<260>>, <<97,808>>, <<97,808>>, 0, FALSE>>,
<<262, TRUE, FALSE, FALSE, TRUE, <<263>>, <<262>>, <<67,769>>, <<67,769>>, 0, FALSE>>,
<<263, TRUE, FALSE, TRUE, FALSE, <<263>>, <<262>>, <<99,769>>, <<99,769>>, 0, FALSE>>,
<<264, TRUE, FALSE, FALSE, TRUE, <<265>>, <<264>>, <<67,770>>, <<67,770>>, 0, FALSE>>,
<<265, TRUE, FALSE, TRUE, FALSE, <<265>>, <<264>>, <<99,770>>, <<99,770>>, 0, FALSE>>,
<<266, TRUE, FALSE, FALSE, TRUE, <<267>>, <<266>>, <<67,775>>, <<67,775>>, 0, FALSE>>,
<<267, TRUE, FALSE, TRUE, FALSE, <<267>>, <<266>>, <<99,775>>, <<99,775>>, 0, FALSE>>,
<<268, TRUE, FALSE, FALSE, TRUE, <<269>>, <<268>>, <<67,780>>, <<67,780>>, 0, FALSE>>,
<<269, TRUE, FALSE, TRUE, FALSE, <<269>>, <<268>>, <<99,780>>, <<99,780>>, 0, FALSE>>,
<<270, TRUE, FALSE, FALSE, TRUE, <<271>>, <<270>>, <<68,780>>, <<68,780>>, 0, FALSE>>,
<<271, TRUE, FALSE, TRUE, FALSE, <<271>>, <<270>>, <<100,780>>, <<100,780>>, 0, FALSE>>,
<<272, TRUE, FALSE, FALSE, TRUE, <<273>>, <<272>>, <<>>, <<>>, 0, FALSE>>,
<<273, TRUE, FALSE, TRUE, FALSE, <<273>>, <<272>>, <<>>, <<>>, 0, FALSE>>,
<<274, TRUE, FALSE, FALSE, TRUE, <<275>>, <<274>>, <<69,772>>, <<69,772>>, 0, FALSE>>,
<<275, TRUE, FALSE, TRUE, FALSE, <<275>>, <<274>>, <<101,772>>, <<101,772>>, 0, FALSE>>,
<<276, TRUE, FALSE, FALSE, TRUE, <<277>>, <<276>>, <<69,774>>, <<69,774>>, 0, FALSE>>,
<<277, TRUE, FALSE, TRUE, FALSE, <<277>>, <<276>>, <<101,774>>, <<101,774>>, 0, FALSE>>,
<<278, TRUE, FALSE, FALSE, TRUE, <<279>>, <<278>>, <<69,775>>, <<69,775>>, 0, FALSE>>,
<<279, TRUE, FALSE, TRUE, FALSE, <<279>>, <<278>>, <<101,775>>, <<101,775>>, 0, FALSE>>,
<<280, TRUE, FALSE, FALSE, TRUE, <<281>>, <<280>>, <<69,808>>, <<69,808>>, 0, FALSE>>,
<<281, TRUE, FALSE, TRUE, FALSE, <<281>>, <<280>>, <<101,808>>, <<101,808>>, 0, FALSE>>,
<<282, TRUE, FALSE, FALSE, TRUE, <<283>>, <<282>>, <<69,780>>, <<69,780>>, 0, FALSE>>,
<<283, TRUE, FALSE, TRUE, FALSE, <<283>>, <<282>>, <<101,780>>, <<101,780>>, 0, FALSE>>,
<<284, TRUE, FALSE, FALSE, TRUE, <<285>>, <<284>>, <<71,770>>, <<71,770>>, 0, FALSE>>,
<<285, TRUE, FALSE, TRUE, FALSE, <<285>>, <<284>>, <<103,770>>, <<103,770>>, 0, FALSE>>,
<<286, TRUE, FALSE, FALSE, TRUE, <<287>>, <<286>>, <<71,774>>, <<71,774>>, 0, FALSE>>,
<<287, TRUE, FALSE, TRUE, FALSE, <<287>>, <<286>>, <<103,774>>, <<103,774>>, 0, FALSE>>,
<<288, TRUE, FALSE, FALSE, TRUE, <<289>>, <<288>>, <<71,775>>, <<71,775>>, 0, FALSE>>,
<<289, TRUE, FALSE, TRUE, FALSE, <<289>>, <<288>>, <<103,775>>, <<103,775>>, 0, FALSE>>,
<<290, TRUE, FALSE, FALSE, TRUE, <<291>>, <<290>>, <<71,807>>, <<71,807>>, 0, FALSE>>,
<<291, TRUE, FALSE, TRUE, FALSE, <<291>>, <<290>>, <<103,807>>, <<103,807>>, 0, FALSE>>,
<<292, TRUE, FALSE, FALSE, TRUE, <<293>>, <<292>>, <<72,770>>, <<72,770>>, 0, FALSE>>,
<<293, TRUE, FALSE, TRUE, FALSE, <<293>>, <<292>>, <<104,770>>, <<104,770>>, 0, FALSE>>,
<<294, TRUE, FALSE, FALSE, TRUE, <<295>>, <<294>>, <<>>, <<>>, 0, FALSE>>,
<<295, TRUE, FALSE, TRUE, FALSE, <<295>>, <<294>>, <<>>, <<>>, 0, FALSE>>,
<<296, TRUE, FALSE, FALSE, TRUE, <<297>>, <<296>>, <<73,771>>, <<73,771>>, 0, FALSE>>,
<<297, TRUE, FALSE, TRUE, FALSE, <<297>>, <<296>>, <<105,771>>, <<105,771>>, 0, FALSE>>,
<<298, TRUE, FALSE, FALSE, TRUE, <<299>>, <<298>>, <<73,772>>, <<73,772>>, 0, FALSE>>,
<<299, TRUE, FALSE, TRUE, FALSE, <<299>>, <<298>>, <<105,772>>, <<105,772>>, 0, FALSE>>,
<<300, TRUE, FALSE, FALSE, TRUE, <<301>>, <<300>>, <<73,774>>, <<73,774>>, 0, FALSE>>,
<<301, TRUE, FALSE, TRUE, FALSE, <<301>>, <<300>>, <<105,774>>, <<105,774>>, 0, FALSE>>,
<<302, TRUE, FALSE, FALSE, TRUE, <<303>>, <<302>>, <<73,808>>, <<73,808>>, 0, FALSE>>,
<<303, TRUE, FALSE, TRUE, FALSE, <<303>>, <<302>>, <<105,808>>, <<105,808>>, 0, FALSE>>,
<<304, TRUE, FALSE, FALSE, TRUE, <<105,775>>, <<304>>, <<73,775>>, <<73,775>>, 0, FALSE>>,
<<305, TRUE, FALSE, TRUE, FALSE, <<305>>, <<73>>, <<>>, <<>>, 0, FALSE>>,
<<306, TRUE, FALSE, FALSE, TRUE, <<307>>, <<306>>, <<>>, <<73,74>>, 0, FALSE>>,
<<307, TRUE, FALSE, TRUE, FALSE, <<307>>, <<306>>, <<>>, <<105,106>>, 0, FALSE>>,
<<308, TRUE, FALSE, FALSE, TRUE, <<309>>, <<308>>, <<74,770>>, <<74,770>>, 0, FALSE>>,
<<309, TRUE, FALSE, TRUE, FALSE, <<309>>, <<308>>, <<106,770>>, <<106,770>>, 0, FALSE>>,
<<310, TRUE, FALSE, FALSE, TRUE, <<311>>, <<310>>, <<75,807>>, <<75,807>>, 0, FALSE>>,
<<311, TRUE, FALSE, TRUE, FALSE, <<311>>, <<310>>, <<107,807>>, <<107,807>>, 0, FALSE>>,
<<312, TRUE, FALSE, TRUE, FALSE, <<312>>, <<312>>, <<>>, <<>>, 0, FALSE>>,
<<313, TRUE, FALSE, FALSE, TRUE, <<314>>, <<313>>, <<76,769>>, <<76,769>>, 0, FALSE>>,
<<314, TRUE, FALSE, TRUE, FALSE, <<314>>, <<313>>, <<108,769>>, <<108,769>>, 0, FALSE>>,
<<315, TRUE, FALSE, FALSE, TRUE, <<316>>, <<315>>, <<76,807>>, <<76,807>>, 0, FALSE>>,
<<316, TRUE, FALSE, TRUE, FALSE, <<316>>, <<315>>, <<108,807>>, <<108,807>>, 0, FALSE>>,
<<317, TRUE, FALSE, FALSE, TRUE, <<318>>, <<317>>, <<76,780>>, <<76,780>>, 0, FALSE>>,
<<318, TRUE, FALSE, TRUE, FALSE, <<318>>, <<317>>, <<108,780>>, <<108,780>>, 0, FALSE>>,
<<319, TRUE, FALSE, FALSE, TRUE, <<320>>, <<319>>, <<>>, <<76,183>>, 0, FALSE>>,
<<320, TRUE, FALSE, TRUE, FALSE, <<320>>, <<319>>, <<>>, <<108,183>>, 0, FALSE>>,
<<321, TRUE, FALSE, FALSE, TRUE, <<322>>, <<321>>, <<>>, <<>>, 0, FALSE>>,
<<322, TRUE, FALSE, TRUE, FALSE, <<322>>, <<321>>, <<>>, <<>>, 0, FALSE>>,
<<323, TRUE, FALSE, FALSE, TRUE, <<324>>, <<323>>, <<78,769>>, <<78,769>>, 0, FALSE>>,
<<324, TRUE, FALSE, TRUE, FALSE, <<324>>, <<323>>, <<110,769>>, <<110,769>>, 0, FALSE>>,
<<325, TRUE, FALSE, FALSE, TRUE, <<326>>, <<325>>, <<78,807>>, <<78,807>>, 0, FALSE>>,
<<326, TRUE, FALSE, TRUE, FALSE, <<326>>, <<325>>, <<110,807>>, <<110,807>>, 0, FALSE>>,
<<327, TRUE, FALSE, FALSE, TRUE, <<328>>, <<327>>, <<78,780>>, <<78,780>>, 0, FALSE>>,
<<328, TRUE, FALSE, TRUE, FALSE, <<328>>, <<327>>, <<110,780>>, <<110,780>>, 0, FALSE>>,
<<329, TRUE, FALSE, TRUE, FALSE, <<329>>, <<700,78>>, <<>>, <<700,110>>, 0, FALSE>>,
<<330, TRUE, FALSE, FALSE, TRUE, <<331>>, <<330>>, <<>>, <<>>, 0, FALSE>>,
<<331, TRUE, FALSE, TRUE, FALSE, <<331>>, <<330>>, <<>>, <<>>, 0, FALSE>>,
<<332, TRUE, FALSE, FALSE, TRUE, <<333>>, <<332>>, <<79,772>>, <<79,772>>, 0, FALSE>>,
<<333, TRUE, FALSE, TRUE, FALSE, <<333>>, <<332>>, <<111,772>>, <<111,772>>, 0, FALSE>>,
<<334, TRUE, FALSE, FALSE, TRUE, <<335>>, <<334>>, <<79,774>>, <<79,774>>, 0, FALSE>>,
<<335, TRUE, FALSE, TRUE, FALSE, <<335>>, <<334>>, <<111,774>>, <<111,774>>, 0, FALSE>>,
<<336, TRUE, FALSE, FALSE, TRUE, <<337>>, <<336>>, <<79,779>>, <<79,779>>, 0, FALSE>>,
<<337, TRUE, FALSE, TRUE, FALSE, <<337>>, <<336>>, <<111,779>>, <<111,779>>, 0, FALSE>>,
<<338, TRUE, FALSE, FALSE, TRUE, <<339>>, <<338>>, <<>>, <<>>, 0, FALSE>>,
<<339, TRUE, FALSE, TRUE, FALSE, <<339>>, <<338>>, <<>>, <<>>, 0, FALSE>>,
<<340, TRUE, FALSE, FALSE, TRUE, <<341>>, <<340>>, <<82,769>>, <<82,769>>, 0, FALSE>>,
<<341, TRUE, FALSE, TRUE, FALSE, <<341>>, <<340>>, <<114,769>>, <<114,769>>, 0, FALSE>>,
<<342, TRUE, FALSE, FALSE, TRUE, <<343>>, <<342>>, <<82,807>>, <<82,807>>, 0, FALSE>>,
<<343, TRUE, FALSE, TRUE, FALSE, <<343>>, <<342>>, <<114,807>>, <<114,807>>, 0, FALSE>>,
<<344, TRUE, FALSE, FALSE, TRUE, <<345>>, <<344>>, <<82,780>>, <<82,780>>, 0, FALSE>>,
<<345, TRUE, FALSE, TRUE, FALSE, <<345>>, <<344>>, <<114,780>>, <<114,780>>, 0, FALSE>>,
<<346, TRUE, FALSE, FALSE, TRUE, <<347>>, <<346>>, <<83,769>>, <<83,769>>, 0, FALSE>>,
<<347, TRUE, FALSE, TRUE, FALSE, <<347>>, <<346>>, <<115,769>>, <<115,769>>, 0, FALSE>>,
<<348, TRUE, FALSE, FALSE, TRUE, <<349>>, <<348>>, <<83,770>>, <<83,770>>, 0, FALSE>>,
<<349, TRUE, FALSE, TRUE, FALSE, <<349>>, <<348>>, <<115,770>>, <<115,770>>, 0, FALSE>>,
<<350, TRUE, FALSE, FALSE, TRUE, <<351>>, <<350>>, <<83,807>>, <<83,807>>, 0, FALSE>>,
<<351, TRUE, FALSE, TRUE, FALSE, <<351>>, <<350>>, <<115,807>>, <<115,807>>, 0, FALSE>>,
<<352, TRUE, FALSE, FALSE, TRUE, <<353>>, <<352>>, <<83,780>>, <<83,780>>, 0, FALSE>>,
<<353, TRUE, FALSE, TRUE, FALSE, <<353>>, <<352>>, <<115,780>>, <<115,780>>, 0, FALSE>>,
<<354, TRUE, FALSE, FALSE, TRUE, <<355>>, <<354>>, <<84,807>>, <<84,807>>, 0, FALSE>>,
<<355, TRUE, FALSE, TRUE, FALSE, <<355>>, <<354>>, <<116,807>>, <<116,807>>, 0, FALSE>>,
<<356, TRUE, FALSE, FALSE, TRUE, <<357>>, <<356>>, <<84,780>>, <<84,780>>, 0, FALSE>>,
<<357, TRUE, FALSE, TRUE, FALSE, <<357>>, <<356>>, <<116,780>>, <<116,780>>, 0, FALSE>>,
<<358, TRUE, FALSE, FALSE, TRUE, <<359>>, <<358>>, <<>>, <<>>, 0, FALSE>>,
<<359, TRUE, FALSE, TRUE, FALSE, <<359>>, <<358>>, <<>>, <<>>, 0, FALSE>>,
<<360, TRUE, FALSE, FALSE, TRUE, <<361>>, <<360>>, <<85,771>>, <<85,771>>, 0, FALSE>>,
<<361, TRUE, FALSE, TRUE, FALSE, <<361>>, <<360>>, <<117,771>>, <<117,771>>, 0, FALSE>>,
<<362, TRUE, FALSE, FALSE, TRUE, <<363>>, <<362>>, <<85,772>>, <<85,772>>, 0, FALSE>>,
<<363, TRUE, FALSE, TRUE, FALSE, <<363>>, <<362>>, <<117,772>>, <<117,772>>, 0, FALSE>>,
<<364, TRUE, FALSE, FALSE, TRUE, <<365>>, <<364>>, <<85,774>>, <<85,774>>, 0, FALSE>>,
<<365, TRUE, FALSE, TRUE, FALSE, <<365>>, <<364>>, <<117,774>>, <<117,774>>, 0, FALSE>>,
<<366, TRUE, FALSE, FALSE, TRUE, <<367>>, <<366>>, <<85,778>>, <<85,778>>, 0, FALSE>>,
<<367, TRUE, FALSE, TRUE, FALSE, <<367>>, <<366>>, <<117,778>>, <<117,778>>, 0, FALSE>>,
<<368, TRUE, FALSE, FALSE, TRUE, <<369>>, <<368>>, <<85,779>>, <<85,779>>, 0, FALSE>>,
<<369, TRUE, FALSE, TRUE, FALSE, <<369>>, <<368>>, <<117,779>>, <<117,779>>, 0, FALSE>>,
<<370, TRUE, FALSE, FALSE, TRUE, <<371>>, <<370>>, <<85,808>>, <<85,808>>, 0, FALSE>>,
<<371, TRUE, FALSE, TRUE, FALSE, <<371>>, <<370>>, <<117,808>>, <<117,808>>, 0, FALSE>>,
<<372, TRUE, FALSE, FALSE, TRUE, <<373>>, <<372>>, <<87,770>>, <<87,770>>, 0, FALSE>>,
<<373, TRUE, FALSE, TRUE, FALSE, <<373>>, <<372>>, <<119,770>>, <<119,770>>, 0, FALSE>>,
<<374, TRUE, FALSE, FALSE, TRUE, <<375>>, <<374>>, <<89,770>>, <<89,770>>, 0, FALSE>>,
<<375, TRUE, FALSE, TRUE, FALSE, <<375>>, <<374>>, <<121,770>>, <<121,770>>, 0, FALSE>>,
<<376, TRUE, FALSE, FALSE, TRUE, <<255>>, <<376>>, <<89,776>>, <<89,776>>, 0, FALSE>>,
<<377, TRUE, FALSE, FALSE, TRUE, <<378>>, <<377>>, <<90,769>>, <<90,769>>, 0, FALSE>>,
<<378, TRUE, FALSE, TRUE, FALSE, <<378>>, <<377>>, <<122,769>>, <<122,769>>, 0, FALSE>>,
<<379, TRUE, FALSE, FALSE, TRUE, <<380>>, <<379>>, <<90,775>>, <<90,775>>, 0, FALSE>>,
<<380, TRUE, FALSE, TRUE, FALSE, <<380>>, <<379>>, <<122,775>>, <<122,775>>, 0, FALSE>>,
<<381, TRUE, FALSE, FALSE, TRUE, <<382>>, <<381>>, <<90,780>>, <<90,780>>, 0, FALSE>>,
<<382, TRUE, FALSE, TRUE, FALSE, <<382>>, <<381>>, <<122,780>>, <<122,780>>, 0, FALSE>>,
<<383, TRUE, FALSE, TRUE, FALSE, <<383>>, <<83>>, <<>>, <<115>>, 0, FALSE>>,
<<416, TRUE, FALSE, FALSE, TRUE, <<417>>, <<416>>, <<79,795>>, <<79,795>>, 0, FALSE>>,
<<417, TRUE, FALSE, TRUE, FALSE, <<417>>, <<416>>, <<111,795>>, <<111,795>>, 0, FALSE>>,
<<431, TRUE, FALSE, FALSE, TRUE, <<432>>, <<431>>, <<85,795>>, <<85,795>>, 0, FALSE>>,
<<432, TRUE, FALSE, TRUE, FALSE, <<432>>, <<431>>, <<117,795>>, <<117,795>>, 0, FALSE>>,
<<461, TRUE, FALSE, FALSE, TRUE, <<462>>, <<461>>, <<65,780>>, <<65,780>>, 0, FALSE>>,
<<462, TRUE, FALSE, TRUE, FALSE, <<462>>, <<461>>, <<97,780>>, <<97,780>>, 0, FALSE>>,
<<463, TRUE, FALSE, FALSE, TRUE, <<464>>, <<463>>, <<73,780>>, <<73,780>>, 0, FALSE>>,
<<464, TRUE, FALSE, TRUE, FALSE, <<464>>, <<463>>, <<105,780>>, <<105,780>>, 0, FALSE>>,
<<465, TRUE, FALSE, FALSE, TRUE, <<466>>, <<465>>, <<79,780>>, <<79,780>>, 0, FALSE>>,
<<466, TRUE, FALSE, TRUE, FALSE, <<466>>, <<465>>, <<111,780>>, <<111,780>>, 0, FALSE>>,
<<467, TRUE, FALSE, FALSE, TRUE, <<468>>, <<467>>, <<85,780>>, <<85,780>>, 0, FALSE>>,
<<468, TRUE, FALSE, TRUE, FALSE, <<468>>, <<467>>, <<117,780>>, <<117,780>>, 0, FALSE>>,
<<469, TRUE, FALSE, FALSE, TRUE, <<470>>, <<469>>, <<220,772>>, <<220,772>>, 0, FALSE>>,
<<470, TRUE, FALSE, TRUE, FALSE, <<470>>, <<469>>, <<252,772>>, <<252,772>>, 0, FALSE>>,
<<471, TRUE, FALSE, FALSE, TRUE, <<472>>, <<471>>, <<220,769>>, <<220,769>>, 0, FALSE>>,
<<472, TRUE, FALSE, TRUE, FALSE, <<472>>, <<471>>, <<252,769>>, <<252,769>>, 0, FALSE>>,
<<473, TRUE, FALSE, FALSE, TRUE, <<474>>, <<473>>, <<220,780>>, <<220,780>>, 0, FALSE>>,
<<474, TRUE, FALSE, TRUE, FALSE, <<474>>, <<473>>, <<252,780>>, <<252,780>>, 0, FALSE>>,
<<475, TRUE, FALSE, FALSE, TRUE, <<476>>, <<475>>, <<220,768>>, <<220,768>>, 0, FALSE>>,
<<476, TRUE, FALSE, TRUE, FALSE, <<476>>, <<475>>, <<252,768>>, <<252,768>>, 0, FALSE>>,
<<478, TRUE, FALSE, FALSE, TRUE, <<479>>, <<478>>, <<196,772>>, <<196,772>>, 0, FALSE>>,
<<479, TRUE, FALSE, TRUE, FALSE, <<479>>, <<478>>, <<228,772>>, <<228,772>>, 0, FALSE>>,
<<480, TRUE, FALSE, FALSE, TRUE, <<481>>, <<480>>, <<550,772>>, <<550,772>>, 0, FALSE>>,
<<481, TRUE, FALSE, TRUE, FALSE, <<481>>, <<480>>, <<551,772>>, <<551,772>>, 0, FALSE>>,
<<482, TRUE, FALSE, FALSE, TRUE, <<483>>, <<482>>, <<198,772>>, <<198,772>>, 0, FALSE>>,
<<483, TRUE, FALSE, TRUE, FALSE, <<483>>, <<482>>, <<230,772>>, <<230,772>>, 0, FALSE>>,
<<486, TRUE, FALSE, FALSE, TRUE, <<487>>, <<486>>, <<71,780>>, <<71,780>>, 0, FALSE>>,
<<487, TRUE, FALSE, TRUE, FALSE, <<487>>, <<486>>, <<103,780>>, <<103,780>>, 0, FALSE>>,
<<488, TRUE, FALSE, FALSE, TRUE, <<489>>, <<488>>, <<75,780>>, <<75,780>>, 0, FALSE>>,
<<489, TRUE, FALSE, TRUE, FALSE, <<489>>, <<488>>, <<107,780>>, <<107,780>>, 0, FALSE>>,
<<490, TRUE, FALSE, FALSE, TRUE, <<491>>, <<490>>, <<79,808>>, <<79,808>>, 0, FALSE>>,
<<491, TRUE, FALSE, TRUE, FALSE, <<491>>, <<490>>, <<111,808>>, <<111,808>>, 0, FALSE>>,
<<492, TRUE, FALSE, FALSE, TRUE, <<493>>, <<492>>, <<490,772>>, <<490,772>>, 0, FALSE>>,
<<493, TRUE, FALSE, TRUE, FALSE, <<493>>, <<492>>, <<491,772>>, <<491,772>>, 0, FALSE>>,
<<496, TRUE, FALSE, TRUE, FALSE, <<496>>, <<74,780>>, <<106,780>>, <<106,780>>, 0, FALSE>>,
<<500, TRUE, FALSE, FALSE, TRUE, <<501>>, <<500>>, <<71,769>>, <<71,769>>, 0, FALSE>>,
<<501, TRUE, FALSE, TRUE, FALSE, <<501>>, <<500>>, <<103,769>>, <<103,769>>, 0, FALSE>>,
<<504, TRUE, FALSE, FALSE, TRUE, <<505>>, <<504>>, <<78,768>>, <<78,768>>, 0, FALSE>>,
<<505, TRUE, FALSE, TRUE, FALSE, <<505>>, <<504>>, <<110,768>>, <<110,768>>, 0, FALSE>>,
<<506, TRUE, FALSE, FALSE, TRUE, <<507>>, <<506>>, <<197,769>>, <<197,769>>, 0, FALSE>>,
<<507, TRUE, FALSE, TRUE, FALSE, <<507>>, <<506>>, <<229,769>>, <<229,769>>, 0, FALSE>>,
<<508, TRUE, FALSE, FALSE, TRUE, <<509>>, <<508>>, <<198,769>>, <<198,769>>, 0, FALSE>>,
<<509, TRUE, FALSE, TRUE, FALSE, <<509>>, <<508>>, <<230,769>>, <<230,769>>, 0, FALSE>>,
<<510, TRUE, FALSE, FALSE, TRUE, <<511>>, <<510>>, <<216,769>>, <<216,769>>, 0, FALSE>>,
<<511, TRUE, FALSE, TRUE, FALSE, <<511>>, <<510>>, <<248,769>>, <<248,769>>, 0, FALSE>>,
<<512, TRUE, FALSE, FALSE, TRUE, <<513>>, <<512>>, <<65,783>>, <<65,783>>, 0, FALSE>>,
<<513, TRUE, FALSE, TRUE, FALSE, <<513>>, <<512>>, <<97,783>>, <<97,783>>, 0, FALSE>>,
<<514, TRUE, FALSE, FALSE, TRUE, <<515>>, <<514>>, <<65,785>>, <<65,785>>, 0, FALSE>>,
<<515, TRUE, FALSE, TRUE, FALSE, <<515>>, <<514>>, <<97,785>>, <<97,785>>, 0, FALSE>>,
<<516, TRUE, FALSE, FALSE, TRUE, <<517>>, <<516>>, <<69,783>>, <<69,783>>, 0, FALSE>>,
<<517, TRUE, FALSE, TRUE, FALSE, <<517>>, <<516>>, <<101,783>>, <<101,783>>, 0, FALSE>>,
<<518, TRUE, FALSE, FALSE, TRUE, <<519>>, <<518>>, <<69,785>>, <<69,785>>, 0, FALSE>>,
<<519, TRUE, FALSE, TRUE, FALSE, <<519>>, <<518>>, <<101,785>>, <<101,785>>, 0, FALSE>>,
<<520, TRUE, FALSE, FALSE, TRUE, <<521>>, <<520>>, <<73,783>>, <<73,783>>, 0, FALSE>>,
<<521, TRUE, FALSE, TRUE, FALSE, <<521>>, <<520>>, <<105,783>>, <<105,783>>, 0, FALSE>>,
<<522, TRUE, FALSE, FALSE, TRUE, <<523>>, <<522>>, <<73,785>>, <<73,785>>, 0, FALSE>>,
<<523, TRUE, FALSE, TRUE, FALSE, <<523>>, <<522>>, <<105,785>>, <<105,785>>, 0, FALSE>>,
<<524, TRUE, FALSE, FALSE, TRUE, <<525>>, <<524>>, <<79,783>>, <<79,783>>, 0, FALSE>>,
<<525, TRUE, FALSE, TRUE, FALSE, <<525>>, <<524>>, <<111,783>>, <<111,783>>, 0, FALSE>>,
<<526, TRUE, FALSE, FALSE, TRUE, <<527>>, <<526>>, <<79,785>>, <<79,785>>, 0, FALSE>>,
<<527, TRUE, FALSE, TRUE, FALSE, <<527>>, <<526>>, <<111,785>>, <<111,785>>, 0, FALSE>>,
<<528, TRUE, FALSE, FALSE, TRUE, <<529>>, <<528>>, <<82,783>>, <<82,783>>, 0, FALSE>>,
<<529, TRUE, FALSE, TRUE, FALSE, <<529>>, <<528>>, <<114,783>>, <<114,783>>, 0, FALSE>>,
<<530, TRUE, FALSE, FALSE, TRUE, <<531>>, <<530>>, <<82,785>>, <<82,785>>, 0, FALSE>>,
<<531, TRUE, FALSE, TRUE, FALSE, <<531>>, <<530>>, <<114,785>>, <<114,785>>, 0, FALSE>>,
<<532, TRUE, FALSE, FALSE, TRUE, <<533>>, <<532>>, <<85,783>>, <<85,783>>, 0, FALSE>>,
<<533, TRUE, FALSE, TRUE, FALSE, <<533>>, <<532>>, <<117,783>>, <<117,783>>, 0, FALSE>>,
<<534, TRUE, FALSE, FALSE, TRUE, <<535>>, <<534>>, <<85,785>>, <<85,785>>, 0, FALSE>>,
<<535, TRUE, FALSE, TRUE, FALSE, <<535>>, <<534>>, <<117,785>>, <<117,785>>, 0, FALSE>>,
<<536, TRUE, FALSE, FALSE, TRUE, <<537>>, <<536>>, <<83,806>>, <<83,806>>, 0, FALSE>>,
<<537, TRUE, FALSE, TRUE, FALSE, <<537>>, <<536>>, <<115,806>>, <<115,806>>, 0, FALSE>>,
<<538, TRUE, FALSE, FALSE, TRUE, <<539>>, <<538>>, <<84,806>>, <<84,806>>, 0, FALSE>>,
<<539, TRUE, FALSE, TRUE, FALSE, <<539>>, <<538>>, <<116,806>>, <<116,806>>, 0, FALSE>>,
<<542, TRUE, FALSE, FALSE, TRUE, <<543>>, <<542>>, <<72,780>>, <<72,780>>, 0, FALSE>>,
<<543, TRUE, FALSE, TRUE, FALSE, <<543>>, <<542>>, <<104,780>>, <<104,780>>, 0, FALSE>>,
<<550, TRUE, FALSE, FALSE, TRUE, <<551>>, <<550>>, <<65,775>>, <<65,775>>, 0, FALSE>>,
<<551, TRUE, FALSE, TRUE, FALSE, <<551>>, <<550>>, <<97,775>>, <<97,775>>, 0, FALSE>>,
<<552, TRUE, FALSE, FALSE, TRUE, <<553>>, <<552>>, <<69,807>>, <<69,807>>, 0, FALSE>>,
<<553, TRUE, FALSE, TRUE, FALSE, <<553>>, <<552>>, <<101,807>>, <<101,807>>, 0, FALSE>>,
<<554, TRUE, FALSE, FALSE, TRUE, <<555>>, <<554>>, <<214,772>>, <<214,772>>, 0, FALSE>>,
<<555, TRUE, FALSE, TRUE, FALSE, <<555>>, <<554>>, <<246,772>>, <<246,772>>, 0, FALSE>>,
<<556, TRUE, FALSE, FALSE, TRUE, <<557>>, <<556>>, <<213,772>>, <<213,772>>, 0, FALSE>>,
<<557, TRUE, FALSE, TRUE, FALSE, <<557>>, <<556>>, <<245,772>>, <<245,772>>, 0, FALSE>>,
<<558, TRUE, FALSE, FALSE, TRUE, <<559>>, <<558>>, <<79,775>>, <<79,775>>, 0, FALSE>>,
<<559, TRUE, FALSE, TRUE, FALSE, <<559>>, <<558>>, <<111,775>>, <<111,775>>, 0, FALSE>>,
<<560, TRUE, FALSE, FALSE, TRUE, <<561>>, <<560>>, <<558,772>>, <<558,772>>, 0, FALSE>>,
<<561, TRUE, FALSE, TRUE, FALSE, <<561>>, <<560>>, <<559,772>>, <<559,772>>, 0, FALSE>>,
<<562, TRUE, FALSE, FALSE, TRUE, <<563>>, <<562>>, <<89,772>>, <<89,772>>, 0, FALSE>>,
<<563, TRUE, FALSE, TRUE, FALSE, <<563>>, <<562>>, <<121,772>>, <<121,772>>, 0, FALSE>>,
<<700, TRUE, FALSE, FALSE, FALSE, <<700>>, <<700>>, <<>>, <<>>, 0, FALSE>>,
<<702, TRUE, FALSE, FALSE, FALSE, <<702>>, <<702>>, <<>>, <<>>, 0, FALSE>>,
<<768, TRUE, FALSE, FALSE, FALSE, <<768>>, <<768>>, <<>>, <<>>, 230, FALSE>>,
<<769, TRUE, FALSE, FALSE, FALSE, <<769>>, <<769>>, <<>>, <<>>, 230, FALSE>>,
<<770, TRUE, FALSE, FALSE, FALSE, <<770>>, <<770>>, <<>>, <<>>, 230, FALSE>>,
<<771, TRUE, FALSE, FALSE, FALSE, <<771>>, <<771>>, <<>>, <<>>, 230, FALSE>>,
<<772, TRUE, FALSE, FALSE, FALSE, <<772>>, <<772>>, <<>>, <<>>, 230, FALSE>>,
<<773, TRUE, FALSE, FALSE, FALSE, <<773>>, <<773>>, <<>>, <<>>, 230, FALSE>>,
<<774, TRUE, FALSE, FALSE, FALSE, <<774>>, <<774>>, <<>>, <<>>, 230, FALSE>>,
<<775, TRUE, FALSE, FALSE, FALSE, <<775>>, <<775>>, <<>>, <<>>, 230, FALSE>>,
<<776, TRUE, FALSE, FALSE, FALSE, <<776>>, <<776>>, <<>>, <<>>, 230, FALSE>>,
<<777, TRUE, FALSE, FALSE, FALSE, <<777>>, <<777>>, <<>>, <<>>, 230, FALSE>>,
<<778, TRUE, FALSE, FALSE, FALSE, <<778>>, <<778>>, <<>>, <<>>, 230, FALSE>>,
<<779, TRUE, FALSE, FALSE, FALSE, <<779>>, <<779>>, <<>>, <<>>, 230, FALSE>>,
<<780, TRUE, FALSE, FALSE, FALSE, <<780>>, <<780>>, <<>>, <<>>, 230, FALSE>>,
<<781, TRUE, FALSE, FALSE, FALSE, <<781>>, <<781>>, <<>>, <<>>, 230, FALSE>>,
<<782, TRUE, FALSE, FALSE, FALSE, <<782>>, <<782>>, <<>>, <<>>, 230, FALSE>>,
<<783, TRUE, FALSE, FALSE, FALSE, <<783>>, <<783>>, <<>>, <<>>, 230, FALSE>>,
<<784, TRUE, FALSE, FALSE, FALSE, <<784>>, <<784>>, <<>>, <<>>, 230, FALSE>>,
<<785, TRUE, FALSE, FALSE, FALSE, <<785>>, <<785>>, <<>>, <<>>, 230, FALSE>>,
<<786, TRUE, FALSE, FALSE, FALSE, <<786>>, <<786>>, <<>>, <<>>, 230, FALSE>>,
<<787, TRUE, FALSE, FALSE, FALSE, <<787>>, <<787>>, <<>>, <<>>, 230, FALSE>>,
<<788, TRUE, FALSE, FALSE, FALSE, <<788>>, <<788>>, <<>>, <<>>, 230, FALSE>>,
<<789, TRUE, FALSE, FALSE, FALSE, <<789>>, <<789>>, <<>>, <<>>, 232, FALSE>>,
<<790, TRUE, FALSE, FALSE, FALSE, <<790>>, <<790>>, <<>>, <<>>, 220, FALSE>>,
<<791, TRUE, FALSE, FALSE, FALSE, <<791>>, <<791>>, <<>>, <<>>, 220, FALSE>>,
<<792, TRUE, FALSE, FALSE, FALSE, <<792>>, <<792>>, <<>>, <<>>, 220, FALSE>>,
<<793, TRUE, FALSE, FALSE, FALSE, <<793>>, <<793>>, <<>>, <<>>, 220, FALSE>>,
<<794, TRUE, FALSE, FALSE, FALSE, <<794>>, <<794>>, <<>>, <<>>, 232, FALSE>>,
<<795, TRUE, FALSE, FALSE, FALSE, <<795>>, <<795>>, <<>>, <<>>, 216, FALSE>>,
<<796, TRUE, FALSE, FALSE, FALSE, <<796>>, <<796>>, <<>>, <<>>, 220, FALSE>>,
<<797, TRUE, FALSE, FALSE, FALSE, <<797>>, <<797>>, <<>>, <<>>, 220, FALSE>>,
<<798, TRUE, FALSE, FALSE, FALSE, <<798>>, <<798>>, <<>>, <<>>, 220, FALSE>>,
<<799, TRUE, FALSE, FALSE, FALSE, <<799>>, <<799>>, <<>>, <<>>, 220, FALSE>>,
<<800, TRUE, FALSE, FALSE, FALSE, <<800>>, <<800>>, <<>>, <<>>, 220, FALSE>>,
<<801, TRUE, FALSE, FALSE, FALSE, <<801>>, <<801>>, <<>>, <<>>, 202, FALSE>>,
<<802, TRUE, FALSE, FALSE, FALSE, <<802>>, <<802>>, <<>>, <<>>, 202, FALSE>>,
<<803, TRUE, FALSE, FALSE, FALSE, <<803>>, <<803>>, <<>>, <<>>, 220, FALSE>>,
<<804, TRUE, FALSE, FALSE, FALSE, <<804>>, <<804>>, <<>>, <<>>, 220, FALSE>>,
<<805, TRUE, FALSE, FALSE, FALSE, <<805>>, <<805>>, <<>>, <<>>, 220, FALSE>>,
<<806, TRUE, FALSE, FALSE, FALSE, <<806>>, <<806>>, <<>>, <<>>, 220, FALSE>>,
<<807, TRUE, FALSE, FALSE, FALSE, <<807>>, <<807>>, <<>>, <<>>, 202, FALSE>>,
<<808, TRUE, FALSE, FALSE, FALSE, <<808>>, <<808>>, <<>>, <<>>, 202, FALSE>>,
<<809, TRUE, FALSE, FALSE, FALSE, <<809>>, <<809>>, <<>>, <<>>, 220, FALSE>>,
<<810, TRUE, FALSE, FALSE, FALSE, <<810>>, <<810>>, <<>>, <<>>, 220, FALSE>>,
<<811, TRUE, FALSE, FALSE, FALSE, <<811>>, <<811>>, <<>>, <<>>, 220, FALSE>>,
<<812, TRUE, FALSE, FALSE, FALSE, <<812>>, <<812>>, <<>>, <<>>, 220, FALSE>>,
<<813, TRUE, FALSE, FALSE, FALSE, <<813>>, <<813>>, <<>>, <<>>, 220, FALSE>>,
<<814, TRUE, FALSE, FALSE, FALSE, <<814>>, <<814>>, <<>>, <<>>, 220, FALSE>>,
<<815, TRUE, FALSE, FALSE, FALSE, <<815>>, <<815>>, <<>>, <<>>, 220, FALSE>>,
<<816, TRUE, FALSE, FALSE, FALSE, <<816>>, <<816>>, <<>>, <<>>, 220, FALSE>>,
<<817, TRUE, FALSE, FALSE, FALSE, <<817>>, <<817>>, <<>>, <<>>, 220, FALSE>>,
<<832, TRUE, FALSE, FALSE, FALSE, <<832>>, <<832>>, <<768>>, <<768>>, 230, TRUE>>,
<<833, TRUE, FALSE, FALSE, FALSE, <<833>>, <<833>>, <<769>>, <<769>>, 230, TRUE>>,
<<836, TRUE, FALSE, FALSE, FALSE, <<836>>, <<836>>, <<776,769>>, <<776,769>>, 230, TRUE>>,
<<837, TRUE, FALSE, TRUE, FALSE, <<837>>, <<921>>, <<>>, <<>>, 240, FALSE>>,
<<901, FALSE, FALSE, FALSE, FALSE, <<901>>, <<901>>, <<168,769>>, <<168,769>>, 0, FALSE>>,
<<902, TRUE, FALSE, FALSE, TRUE, <<940>>, <<902>>, <<913,769>>, <<913,769>>, 0, FALSE>>,
<<904, TRUE, FALSE, FALSE, TRUE, <<941>>, <<904>>, <<917,769>>, <<917,769>>, 0, FALSE>>,
<<905, TRUE, FALSE, FALSE, TRUE, <<942>>, <<905>>, <<919,769>>, <<919,769>>, 0, FALSE>>,
<<906, TRUE, FALSE, FALSE, TRUE, <<943>>, <<906>>, <<921,769>>, <<921,769>>, 0, FALSE>>,
<<908, TRUE, FALSE, FALSE, TRUE, <<972>>, <<908>>, <<927,769>>, <<927,769>>, 0, FALSE>>,
<<910, TRUE, FALSE, FALSE, TRUE, <<973>>, <<910>>, <<933,769>>, <<933,769>>, 0, FALSE>>,
<<911, TRUE, FALSE, FALSE, TRUE, <<974>>, <<911>>, <<937,769>>, <<937,769>>, 0, FALSE>>,
<<912, TRUE, FALSE, TRUE, FALSE, <<912>>, <<921,776,769>>, <<970,769>>, <<970,769>>, 0, FALSE>>,
<<913, TRUE, FALSE, FALSE, TRUE, <<945>>, <<913>>, <<>>, <<>>, 0, FALSE>>,
<<914, TRUE, FALSE, FALSE, TRUE, <<946>>, <<914>>, <<>>, <<>>, 0, FALSE>>,
<<915, TRUE, FALSE, FALSE, TRUE, <<947>>, <<915>>, <<>>, <<>>, 0, FALSE>>,
<<916, TRUE, FALSE, FALSE, TRUE, <<948>>, <<916>>, <<>>, <<>>, 0, FALSE>>,
<<917, TRUE, FALSE, FALSE, TRUE, <<949>>, <<917>>, <<>>, <<>>, 0, FALSE>>,
<<918, TRUE, FALSE, FALSE, TRUE, <<950>>, <<918>>, <<>>, <<>>, 0, FALSE>>,
<<919, TRUE, FALSE, FALSE, TRUE, <<951>>, <<919>>, <<>>, <<>>, 0, FALSE>>,
<<920, TRUE, FALSE, FALSE, TRUE, <<952>>, <<920>>, <<>>, <<>>, 0, FALSE>>,
<<921, TRUE, FALSE, FALSE, TRUE, <<953>>, <<921>>, <<>>, <<>>, 0, FALSE>>,
<<922, TRUE, FALSE, FALSE, TRUE, <<954>>, <<922>>, <<>>, <<>>, 0, FALSE>>,
<<923, TRUE, FALSE, FALSE, TRUE, <<955>>, <<923>>, <<>>, <<>>, 0, FALSE>>,
<<924, TRUE, FALSE, FALSE, TRUE, <<956>>, <<924>>, <<>>, <<>>, 0, FALSE>>,
<<925, TRUE, FALSE, FALSE, TRUE, <<957>>, <<925>>, <<>>, <<>>, 0, FALSE>>,
<<926, TRUE, FALSE, FALSE, TRUE, <<958>>, <<926>>, <<>>, <<>>, 0, FALSE>>,
<<927, TRUE, FALSE, FALSE, TRUE, <<959>>, <<927>>, <<>>, <<>>, 0, FALSE>>,
<<928, TRUE, FALSE, FALSE, TRUE, <<960>>, <<928>>, <<>>, <<>>, 0, FALSE>>,
<<929, TRUE, FALSE, FALSE, TRUE, <<961>>, <<929>>, <<>>, <<>>, 0, FALSE>>,
<<931, TRUE, FALSE, FALSE, TRUE, <<963>>, <<931>>, <<>>, <<>>, 0, FALSE>>,
<<932, TRUE, FALSE, FALSE, TRUE, <<964>>, <<932>>, <<>>, <<>>, 0, FALSE>>,
<<933, TRUE, FALSE, FALSE, TRUE, <<965>>, <<933>>, <<>>, <<>>, 0, FALSE>>,
<<934, TRUE, FALSE, FALSE, TRUE, <<966>>, <<934>>, <<>>, <<>>, 0, FALSE>>,
<<935, TRUE, FALSE, FALSE, TRUE, <<967>>, <<935>>, <<>>, <<>>, 0, FALSE>>,
<<936, TRUE, FALSE, FALSE, TRUE, <<968>>, <<936>>, <<>>, <<>>, 0, FALSE>>,
<<937, TRUE, FALSE, FALSE, TRUE, <<969>>, <<937>>, <<>>, <<>>, 0, FALSE>>,
<<938, TRUE, FALSE, FALSE, TRUE, <<970>>, <<938>>, <<921,776>>, <<921,776>>, 0, FALSE>>,
<<939, TRUE, FALSE, FALSE, TRUE, <<971>>, <<939>>, <<933,776>>, <<933,776>>, 0, FALSE>>,
<<940, TRUE, FALSE, TRUE, FALSE, <<940>>, <<902>>, <<945,769>>, <<945,769>>, 0, FALSE>>,
<<941, TRUE, FALSE, TRUE, FALSE, <<941>>, <<904>>, <<949,769>>, <<949,769>>, 0, FALSE>>,
<<942, TRUE, FALSE, TRUE, FALSE, <<942>>, <<905>>, <<951,769>>, <<951,769>>, 0, FALSE>>,
<<943, TRUE, FALSE, TRUE, FALSE, <<943>>, <<906>>, <<953,769>>, <<953,769>>, 0, FALSE>>,
<<944, TRUE, FALSE, TRUE, FALSE, <<944>>, <<933,776,769>>, <<971,769>>, <<971,769>>, 0, FALSE>>,
<<945, TRUE, FALSE, TRUE, FALSE, <<945>>, <<913>>, <<>>, <<>>, 0, FALSE>>,
<<946, TRUE, FALSE, TRUE, FALSE, <<946>>, <<914>>, <<>>, <<>>, 0, FALSE>>,
<<947, TRUE, FALSE, TRUE, FALSE, <<947>>, <<915>>, <<>>, <<>>, 0, FALSE>>,
<<948, TRUE, FALSE, TRUE, FALSE, <<948>>, <<916>>, <<>>, <<>>, 0, FALSE>>,
<<949, TRUE, FALSE, TRUE, FALSE, <<949>>, <<917>>, <<>>, <<>>, 0, FALSE>>,
<<950, TRUE, FALSE, TRUE, FALSE, <<950>>, <<918>>, <<>>, <<>>, 0, FALSE>>,
<<951, TRUE, FALSE, TRUE, FALSE, <<951>>, <<919>>, <<>>, <<>>, 0, FALSE>>,
<<952, TRUE, FALSE, TRUE, FALSE, <<952>>, <<920>>, <<>>, <<>>, 0, FALSE>>,
<<953, TRUE, FALSE, TRUE, FALSE, <<953>>, <<921>>, <<>>, <<>>, 0, FALSE>>,
<<954, TRUE, FALSE, TRUE, FALSE, <<954>>, <<922>>, <<>>, <<>>, 0, FALSE>>,
<<955, TRUE, FALSE, TRUE, FALSE, <<955>>, <<923>>, <<>>, <<>>, 0, FALSE>>,
<<956, TRUE, FALSE, TRUE, FALSE, <<956>>, <<924>>, <<>>, <<>>, 0, FALSE>>,
<<957, TRUE, FALSE, TRUE, FALSE, <<957>>, <<925>>, <<>>, <<>>, 0, FALSE>>,
<<958, TRUE, FALSE, TRUE, FALSE, <<958>>, <<926>>, <<>>, <<>>, 0, FALSE>>,
<<959, TRUE, FALSE, TRUE, FALSE, <<959>>, <<927>>, <<>>, <<>>, 0, FALSE>>,
<<960, TRUE, FALSE, TRUE, FALSE, <<960>>, <<928>>, <<>>, <<>>, 0, FALSE>>,
<<961, TRUE, FALSE, TRUE, FALSE, <<961>>, <<929>>, <<>>, <<>>, 0, FALSE>>,
<<962, TRUE, FALSE, TRUE, FALSE, <<962>>, <<931>>, <<>>, <<>>, 0, FALSE>>,
<<963, TRUE, FALSE, TRUE, FALSE, <<963>>, <<931>>, <<>>, <<>>, 0, FALSE>>,
<<964, TRUE, FALSE, TRUE, FALSE, <<964>>, <<932>>, <<>>, <<>>, 0, FALSE>>,
<<965, TRUE, FALSE, TRUE, FALSE, <<965>>, <<933>>, <<>>, <<>>, 0, FALSE>>,
<<966, TRUE, FALSE, TRUE, FALSE, <<966>>, <<934>>, <<>>, <<>>, 0, FALSE>>,
<<967, TRUE, FALSE, TRUE, FALSE, <<967>>, <<935>>, <<>>, <<>>, 0, FALSE>>,
<<968, TRUE, FALSE, TRUE, FALSE, <<968>>, <<936>>, <<>>, <<>>, 0, FALSE>>,
<<969, TRUE, FALSE, TRUE, FALSE, <<969>>, <<937>>, <<>>, <<>>, 0, FALSE>>,
<<970, TRUE, FALSE, TRUE, FALSE, <<970>>, <<938>>, <<953,776>>, <<953,776>>, 0, FALSE>>,
<<971, TRUE, FALSE, TRUE, FALSE, <<971>>, <<939>>, <<965,776>>, <<965,776>>, 0, FALSE>>,
<<972, TRUE, FALSE, TRUE, FALSE, <<972>>, <<908>>, <<959,769>>, <<959,769>>, 0, FALSE>>,
<<973, TRUE, FALSE, TRUE, FALSE, <<973>>, <<910>>, <<965,769>>, <<965,769>>, 0, FALSE>>,
<<974, TRUE, FALSE, TRUE, FALSE, <<974>>, <<911>>, <<969,769>>, <<969,769>>, 0, FALSE>>,
<<1024, TRUE, FALSE, FALSE, TRUE, <<1104>>, <<1024>>, <<1045,768>>, <<1045,768>>, 0, FALSE>>,
<<1025, TRUE, FALSE, FALSE, TRUE, <<1105>>, <<1025>>, <<1045,776>>, <<1045,776>>, 0, FALSE>>,
<<1027, TRUE, FALSE, FALSE, TRUE, <<1107>>, <<1027>>, <<1043,769>>, <<1043,769>>, 0, FALSE>>,
<<1036, TRUE, FALSE, FALSE, TRUE, <<1116>>, <<1036>>, <<1050,769>>, <<1050,769>>, 0, FALSE>>,
<<1037, TRUE, FALSE, FALSE, TRUE, <<1117>>, <<1037>>, <<1048,768>>, <<1048,768>>, 0, FALSE>>,
<<1038, TRUE, FALSE, FALSE, TRUE, <<1118>>, <<1038>>, <<1059,774>>, <<1059,774>>, 0, FALSE>>,
<<1040, TRUE, FALSE, FALSE, TRUE, <<1072>>, <<1040>>, <<>>, <<>>, 0, FALSE>>,
<<1041, TRUE, FALSE, FALSE, TRUE, <<1073>>, <<1041>>, <<>>, <<>>, 0, FALSE>>,
<<1042, TRUE, FALSE, FALSE, TRUE, <<1074>>, <<1042>>, <<>>, <<>>, 0, FALSE>>,
<<1043, TRUE, FALSE, FALSE, TRUE, <<1075>>, <<1043>>, <<>>, <<>>, 0, FALSE>>,
<<1044, TRUE, FALSE, FALSE, TRUE, <<1076>>, <<1044>>, <<>>, <<>>, 0, FALSE>>,
<<1045, TRUE, FALSE, FALSE, TRUE, <<1077>>, <<1045>>, <<>>, <<>>, 0, FALSE>>,
<<1046, TRUE, FALSE, FALSE, TRUE, <<1078>>, <<1046>>, <<>>, <<>>, 0, FALSE>>,
<<1047, TRUE, FALSE, FALSE, TRUE, <<1079>>, <<1047>>, <<>>, <<>>, 0, FALSE>>,
<<1048, TRUE, FALSE, FALSE, TRUE, <<1080>>, <<1048>>, <<>>, <<>>, 0, FALSE>>,
<<1049, TRUE, FALSE, FALSE, TRUE, <<1081>>, <<1049>>, <<1048,774>>, <<1048,774>>, 0, FALSE>>,
<<1050, TRUE, FALSE, FALSE, TRUE, <<1082>>, <<1050>>, <<>>, <<>>, 0, FALSE>>,
<<1051, TRUE, FALSE, FALSE, TRUE, <<1083>>, <<1051>>, <<>>, <<>>, 0, FALSE>>,
<<1052, TRUE, FALSE, FALSE, TRUE, <<1084>>, <<1052>>, <<>>, <<>>, 0, FALSE>>,
<<1053, TRUE, FALSE, FALSE, TRUE, <<1085>>, <<1053>>, <<>>, <<>>, 0, FALSE>>,
<<1054, TRUE, FALSE, FALSE, TRUE, <<1086>>, <<1054>>, <<>>, <<>>, 0, FALSE>>,
<<1055, TRUE, FALSE, FALSE, TRUE, <<1087>>, <<1055>>, <<>>, <<>>, 0, FALSE>>,
<<1056, TRUE, FALSE, FALSE, TRUE, <<1088>>, <<1056>>, <<>>, <<>>, 0, FALSE>>,
<<1057, TRUE, FALSE, FALSE, TRUE, <<1089>>, <<1057>>, <<>>, <<>>, 0, FALSE>>,
<<1058, TRUE, FALSE, FALSE, TRUE, <<1090>>, <<1058>>, <<>>, <<>>, 0, FALSE>>,
<<1059, TRUE, FALSE, FALSE, TRUE, <<1091>>, <<1059>>, <<>>, <<>>, 0, FALSE>>,
<<1060, TRUE, FALSE, FALSE, TRUE, <<1092>>, <<1060>>, <<>>, <<>>, 0, FALSE>>,
<<1061, TRUE, FALSE, FALSE, TRUE, <<1093>>, <<1061>>, <<>>, <<>>, 0, FALSE>>,
<<1062, TRUE, FALSE, FALSE, TRUE, <<1094>>, <<1062>>, <<>>, <<>>, 0, FALSE>>,
<<1063, TRUE, FALSE, FALSE, TRUE, <<1095>>, <<1063>>, <<>>, <<>>, 0, FALSE>>,
<<1064, TRUE, FALSE, FALSE, TRUE, <<1096>>, <<1064>>, <<>>, <<>>, 0, FALSE>>,
<<1065, TRUE, FALSE, FALSE, TRUE, <<1097>>, <<1065>>, <<>>, <<>>, 0, FALSE>>,
<<1066, TRUE, FALSE, FALSE, TRUE, <<1098>>, <<1066>>, <<>>, <<>>, 0, FALSE>>,
<<1067, TRUE, FALSE, FALSE, TRUE, <<1099>>, <<1067>>, <<>>, <<>>, 0, FALSE>>,
<<1068, TRUE, FALSE, FALSE, TRUE, <<1100>>, <<1068>>, <<>>, <<>>, 0, FALSE>>,
<<1069, TRUE, FALSE, FALSE, TRUE, <<1101>>, <<1069>>, <<>>, <<>>, 0, FALSE>>,
<<1070, TRUE, FALSE, FALSE, TRUE, <<1102>>, <<1070>>, <<>>, <<>>, 0, FALSE>>,
<<1071, TRUE, FALSE, FALSE, TRUE, <<1103>>, <<1071>>, <<>>, <<>>, 0, FALSE>>,
<<1072, TRUE, FALSE, TRUE, FALSE, <<1072>>, <<1040>>, <<>>, <<>>, 0, FALSE>>,
<<1073, TRUE, FALSE, TRUE, FALSE, <<1073>>, <<1041>>, <<>>, <<>>, 0, FALSE>>,
<<1074, TRUE, FALSE, TRUE, FALSE, <<1074>>, <<1042>>, <<>>, <<>>, 0, FALSE>>,
<<1075, TRUE, FALSE, TRUE, FALSE, <<1075>>, <<1043>>, <<>>, <<>>, 0, FALSE>>,
<<1076, TRUE, FALSE, TRUE, FALSE, <<1076>>, <<1044>>, <<>>, <<>>, 0, FALSE>>,
<<1077, TRUE, FALSE, TRUE, FALSE, <<1077>>, <<1045>>, <<>>, <<>>, 0, FALSE>>,
<<1078, TRUE, FALSE, TRUE, FALSE, <<1078>>, <<1046>>, <<>>, <<>>, 0, FALSE>>,
<<1079, TRUE, FALSE, TRUE, FALSE, <<1079>>, <<1047>>, <<>>, <<>>, 0, FALSE>>,
<<1080, TRUE, FALSE, TRUE, FALSE, <<1080>>, <<1048>>, <<>>, <<>>, 0, FALSE>>,
<<1081, TRUE, FALSE, TRUE, FALSE, <<1081>>, <<1049>>, <<1080,774>>, <<1080,774>>, 0, FALSE>>,
<<1082, TRUE, FALSE, TRUE, FALSE, <<1082>>, <<1050>>, <<>>, <<>>, 0, FALSE>>,
<<1083, TRUE, FALSE, TRUE, FALSE, <<1083>>, <<1051>>, <<>>, <<>>, 0, FALSE>>,
<<1084, TRUE, FALSE, TRUE, FALSE, <<1084>>, <<1052>>, <<>>, <<>>, 0, FALSE>>,
<<1085, TRUE, FALSE, TRUE, FALSE, <<1085>>, <<1053>>, <<>>, <<>>, 0, FALSE>>,
<<1086, TRUE, FALSE, TRUE, FALSE, <<1086>>, <<1054>>, <<>>, <<>>, 0, FALSE>>,
<<1087, TRUE, FALSE, TRUE, FALSE, <<1087>>, <<1055>>, <<>>, <<>>, 0, FALSE>>,
<<1088, TRUE, FALSE, TRUE, FALSE, <<1088>>, <<1056>>, <<>>, <<>>, 0, FALSE>>,
<<1089, TRUE, FALSE, TRUE, FALSE, <<1089>>, <<1057>>, <<>>, <<>>, 0, FALSE>>,
<<1090, TRUE, FALSE, TRUE, FALSE, <<1090>>, <<1058>>, <<>>, <<>>, 0, FALSE>>,
<<1091, TRUE, FALSE, TRUE, FALSE, <<1091>>, <<1059>>, <<>>, <<>>, 0, FALSE>>,
<<1092, TRUE, FALSE, TRUE, FALSE, <<1092>>, <<1060>>, <<>>, <<>>, 0, FALSE>>,
<<1093, TRUE, FALSE, TRUE, FALSE, <<1093>>, <<1061>>, <<>>, <<>>, 0, FALSE>>,
<<1094, TRUE, FALSE, TRUE, FALSE, <<1094>>, <<1062>>, <<>>, <<>>, 0, FALSE>>,
<<1095, TRUE, FALSE, TRUE, FALSE, <<1095>>, <<1063>>, <<>>, <<>>, 0, FALSE>>,
<<1096, TRUE, FALSE, TRUE, FALSE, <<1096>>, <<1064>>, <<>>, <<>>, 0, FALSE>>,
<<1097, TRUE, FALSE, TRUE, FALSE, <<1097>>, <<1065>>, <<>>, <<>>, 0, FALSE>>,
<<1098, TRUE, FALSE, TRUE, FALSE, <<1098>>, <<1066>>, <<>>, <<>>, 0, FALSE>>,
<<1099, TRUE, FALSE, TRUE, FALSE, <<1099>>, <<1067>>, <<>>, <<>>, 0, FALSE>>,
<<1100, TRUE, FALSE, TRUE, FALSE, <<1100>>, <<1068>>, <<>>, <<>>, 0, FALSE>>,
<<1101, TRUE, FALSE, TRUE, FALSE, <<1101>>, <<1069>>, <<>>, <<>>, 0, FALSE>>,
<<1102, TRUE, FALSE, TRUE, FALSE, <<1102>>, <<1070>>, <<>>, <<>>, 0, FALSE>>,
<<1103, TRUE, FALSE, TRUE, FALSE, <<1103>>, <<1071>>, <<>>, <<>>, 0, FALSE>>,
<<1104, TRUE, FALSE, TRUE, FALSE, <<1104>>, <<1024>>, <<1077,768>>, <<1077,768>>, 0, FALSE>>,
<<1105, TRUE, FALSE, TRUE, FALSE, <<1105>>, <<1025>>, <<1077,776>>, <<1077,776>>, 0, FALSE>>,
<<1107, TRUE, FALSE, TRUE, FALSE, <<1107>>, <<1027>>, <<1075,769>>, <<1075,769>>, 0, FALSE>>,
<<1116, TRUE, FALSE, TRUE, FALSE, <<1116>>, <<1036>>, <<1082,769>>, <<1082,769>>, 0, FALSE>>,
<<1117, TRUE, FALSE, TRUE, FALSE, <<1117>>, <<1037>>, <<1080,768>>, <<1080,768>>, 0, FALSE>>,
<<1118, TRUE, FALSE, TRUE, FALSE, <<1118>>, <<1038>>, <<1091,774>>, <<1091,774>>, 0, FALSE>>,
<<1217, TRUE, FALSE, FALSE, TRUE, <<1218>>, <<1217>>, <<1046,774>>, <<1046,774>>, 0, FALSE>>,
<<1218, TRUE, FALSE, TRUE, FALSE, <<1218>>, <<1217>>, <<1078,774>>, <<1078,774>>, 0, FALSE>>,
<<1232, TRUE, FALSE, FALSE, TRUE, <<1233>>, <<1232>>, <<1040,774>>, <<1040,774>>, 0, FALSE>>,
<<1233, TRUE, FALSE, TRUE, FALSE, <<1233>>, <<1232>>, <<1072,774>>, <<1072,774>>, 0, FALSE>>,
<<1234, TRUE, FALSE, FALSE, TRUE, <<1235>>, <<1234>>, <<1040,776>>, <<1040,776>>, 0, FALSE>>,
<<1235, TRUE, FALSE, TRUE, FALSE, <<1235>>, <<1234>>, <<1072,776>>, <<1072,776>>, 0, FALSE>>,
<<1238, TRUE, FALSE, FALSE, TRUE, <<1239>>, <<1238>>, <<1045,774>>, <<1045,774>>, 0, FALSE>>,
<<1239, TRUE, FALSE, TRUE, FALSE, <<1239>>, <<1238>>, <<1077,774>>, <<1077,774>>, 0, FALSE>>,
<<1244, TRUE, FALSE, FALSE, TRUE, <<1245>>, <<1244>>, <<1046,776>>, <<1046,776>>, 0, FALSE>>,
<<1245, TRUE, FALSE, TRUE, FALSE, <<1245>>, <<1244>>, <<1078,776>>, <<1078,776>>, 0, FALSE>>,
<<1246, TRUE, FALSE, FALSE, TRUE, <<1247>>, <<1246>>, <<1047,776>>, <<1047,776>>, 0, FALSE>>,
<<1247, TRUE, FALSE, TRUE, FALSE, <<1247>>, <<1246>>, <<1079,776>>, <<1079,776>>, 0, FALSE>>,
<<1250, TRUE, FALSE, FALSE, TRUE, <<1251>>, <<1250>>, <<1048,772>>, <<1048,772>>, 0, FALSE>>,
<<1251, TRUE, FALSE, TRUE, FALSE, <<1251>>, <<1250>>, <<1080,772>>, <<1080,772>>, 0, FALSE>>,
<<1252, TRUE, FALSE, FALSE, TRUE, <<1253>>, <<1252>>, <<1048,776>>, <<1048,776>>, 0, FALSE>>,
<<1253, TRUE, FALSE, TRUE, FALSE, <<1253>>, <<1252>>, <<1080,776>>, <<1080,776>>, 0, FALSE>>,
<<1254, TRUE, FALSE, FALSE, TRUE, <<1255>>, <<1254>>, <<1054,776>>, <<1054,776>>, 0, FALSE>>,
<<1255, TRUE, FALSE, TRUE, FALSE, <<1255>>, <<1254>>, <<1086,776>>, <<1086,776>>, 0, FALSE>>,
<<1260, TRUE, FALSE, FALSE, TRUE, <<1261>>, <<1260>>, <<1069,776>>, <<1069,776>>, 0, FALSE>>,
<<1261, TRUE, FALSE, TRUE, FALSE, <<1261>>, <<1260>>, <<1101,776>>, <<1101,776>>, 0, FALSE>>,
<<1262, TRUE, FALSE, FALSE, TRUE, <<1263>>, <<1262>>, <<1059,772>>, <<1059,772>>, 0, FALSE>>,
<<1263, TRUE, FALSE, TRUE, FALSE, <<1263>>, <<1262>>, <<1091,772>>, <<1091,772>>, 0, FALSE>>,
<<1264, TRUE, FALSE, FALSE, TRUE, <<1265>>, <<1264>>, <<1059,776>>, <<1059,776>>, 0, FALSE>>,
<<1265, TRUE, FALSE, TRUE, FALSE, <<1265>>, <<1264>>, <<1091,776>>, <<1091,776>>, 0, FALSE>>,
<<1266, TRUE, FALSE, FALSE, TRUE, <<1267>>, <<1266>>, <<1059,779>>, <<1059,779>>, 0, FALSE>>,
<<1267, TRUE, FALSE, TRUE, FALSE, <<1267>>, <<1266>>, <<1091,779>>, <<1091,779>>, 0, FALSE>>,
<<1268, TRUE, FALSE, FALSE, TRUE, <<1269>>, <<1268>>, <<1063,776>>, <<1063,776>>, 0, FALSE>>,
<<1269, TRUE, FALSE, TRUE, FALSE, <<1269>>, <<1268>>, <<1095,776>>, <<1095,776>>, 0, FALSE>>,
<<1272, TRUE, FALSE, FALSE, TRUE, <<1273>>, <<1272>>, <<1067,776>>, <<1067,776>>, 0, FALSE>>,
<<1273, TRUE, FALSE, TRUE, FALSE, <<1273>>, <<1272>>, <<1099,776>>, <<1099,776>>, 0, FALSE>>,
<<1632, TRUE, FALSE, FALSE, FALSE, <<1632>>, <<1632>>, <<>>, <<>>, 0, FALSE>>,
<<2407, TRUE, FALSE, FALSE, FALSE, <<2407>>, <<2407>>, <<>>, <<>>, 0, FALSE>>,
<<4352, TRUE, FALSE, FALSE, FALSE, <<4352>>, <<4352>>, <<>>, <<>>, 0, FALSE>>,
<<4370, TRUE, FALSE, FALSE, FALSE, <<4370>>, <<4370>>, <<>>, <<>>, 0, FALSE>>,
<<4449, TRUE, FALSE, FALSE, FALSE, <<4449>>, <<4449>>, <<>>, <<>>, 0, FALSE>>,
<<4469, TRUE, FALSE, FALSE, FALSE, <<4469>>, <<4469>>, <<>>, <<>>, 0, FALSE>>,
<<4520, TRUE, FALSE, FALSE, FALSE, <<4520>>, <<4520>>, <<>>, <<>>, 0, FALSE>>,
<<4523, TRUE, FALSE, FALSE, FALSE, <<4523>>, <<4523>>, <<>>, <<>>, 0, FALSE>>,
<<4546, TRUE, FALSE, FALSE, FALSE, <<4546>>, <<4546>>, <<>>, <<>>, 0, FALSE>>,
<<5760, FALSE, TRUE, FALSE, FALSE, <<5760>>, <<5760>>, <<>>, <<>>, 0, FALSE>>,
<<7680, TRUE, FALSE, FALSE, TRUE, <<7681>>, <<7680>>, <<65,805>>, <<65,805>>, 0, FALSE>>,
<<7681, TRUE, FALSE, TRUE, FALSE, <<7681>>, <<7680>>, <<97,805>>, <<97,805>>, 0, FALSE>>,
<<7682, TRUE, FALSE, FALSE, TRUE, <<7683>>, <<7682>>, <<66,775>>, <<66,775>>, 0, FALSE>>,
<<7683, TRUE, FALSE, TRUE, FALSE, <<7683>>, <<7682>>, <<98,775>>, <<98,775>>, 0, FALSE>>,
<<7684, TRUE, FALSE, FALSE, TRUE, <<7685>>, <<7684>>, <<66,803>>, <<66,803>>, 0, FALSE>>,
<<7685, TRUE, FALSE, TRUE, FALSE, <<7685>>, <<7684>>, <<98,803>>, <<98,803>>, 0, FALSE>>,
<<7686, TRUE, FALSE, FALSE, TRUE, <<7687>>, <<7686>>, <<66,817>>, <<66,817>>, 0, FALSE>>,
<<7687, TRUE, FALSE, TRUE, FALSE, <<7687>>, <<7686>>, <<98,817>>, <<98,817>>, 0, FALSE>>,
<<7688, TRUE, FALSE, FALSE, TRUE, <<7689>>, <<7688>>, <<199,769>>, <<199,769>>, 0, FALSE>>,
<<7689, TRUE, FALSE, TRUE, FALSE, <<7689>>, <<7688>>, <<231,769>>, <<231,769>>, 0, FALSE>>,
<<7690, TRUE, FALSE, FALSE, TRUE, <<7691>>, <<7690>>, <<68,775>>, <<68,775>>, 0, FALSE>>,
<<7691, TRUE, FALSE, TRUE, FALSE, <<7691>>, <<7690>>, <<100,775>>, <<100,775>>, 0, FALSE>>,
<<7692, TRUE, FALSE, FALSE, TRUE, <<7693>>, <<7692>>, <<68,803>>, <<68,803>>, 0, FALSE>>,
<<7693, TRUE, FALSE, TRUE, FALSE, <<7693>>, <<7692>>, <<100,803>>, <<100,803>>, 0, FALSE>>,
<<7694, TRUE, FALSE, FALSE, TRUE, <<7695>>, <<7694>>, <<68,817>>, <<68,817>>, 0, FALSE>>,
<<7695, TRUE, FALSE, TRUE, FALSE, <<7695>>, <<7694>>, <<100,817>>, <<100,817>>, 0, FALSE>>,
<<7696, TRUE, FALSE, FALSE, TRUE, <<7697>>, <<7696>>, <<68,807>>, <<68,807>>, 0, FALSE>>,
<<7697, TRUE, FALSE, TRUE, FALSE, <<7697>>, <<7696>>, <<100,807>>, <<100,807>>, 0, FALSE>>,
<<7698, TRUE, FALSE, FALSE, TRUE, <<7699>>, <<7698>>, <<68,813>>, <<68,813>>, 0, FALSE>>,
<<7699, TRUE, FALSE, TRUE, FALSE, <<7699>>, <<7698>>, <<100,813>>, <<100,813>>, 0, FALSE>>,
<<7700, TRUE, FALSE, FALSE, TRUE, <<7701>>, <<7700>>, <<274,768>>, <<274,768>>, 0, FALSE>>,
<<7701, TRUE, FALSE, TRUE, FALSE, <<7701>>, <<7700>>, <<275,768>>, <<275,768>>, 0, FALSE>>,
<<7702, TRUE, FALSE, FALSE, TRUE, <<7703>>, <<7702>>, <<274,769>>, <<274,769>>, 0, FALSE>>,
<<7703, TRUE, FALSE, TRUE, FALSE, <<7703>>, <<7702>>, <<275,769>>, <<275,769>>, 0, FALSE>>,
<<7704, TRUE, FALSE, FALSE, TRUE, <<7705>>, <<7704>>, <<69,813>>, <<69,813>>, 0, FALSE>>,
<<7705, TRUE, FALSE, TRUE, FALSE, <<7705>>, <<7704>>, <<101,813>>, <<101,813>>, 0, FALSE>>,
<<7706, TRUE, FALSE, FALSE, TRUE, <<7707>>, <<7706>>, <<69,816>>, <<69,816>>, 0, FALSE>>,
<<7707, TRUE, FALSE, TRUE, FALSE, <<7707>>, <<7706>>, <<101,816>>, <<101,816>>, 0, FALSE>>,
<<7708, TRUE, FALSE, FALSE, TRUE, <<7709>>, <<7708>>, <<552,774>>, <<552,774>>, 0, FALSE>>,
<<7709, TRUE, FALSE, TRUE, FALSE, <<7709>>, <<7708>>, <<553,774>>, <<553,774>>, 0, FALSE>>,
<<7710, TRUE, FALSE, FALSE, TRUE, <<7711>>, <<7710>>, <<70,775>>, <<70,775>>, 0, FALSE>>,
<<7711, TRUE, FALSE, TRUE, FALSE, <<7711>>, <<7710>>, <<102,775>>, <<102,775>>, 0, FALSE>>,
<<7712, TRUE, FALSE, FALSE, TRUE, <<7713>>, <<7712>>, <<71,772>>, <<71,772>>, 0, FALSE>>,
<<7713, TRUE, FALSE, TRUE, FALSE, <<7713>>, <<7712>>, <<103,772>>, <<103,772>>, 0, FALSE>>,
<<7714, TRUE, FALSE, FALSE, TRUE, <<7715>>, <<7714>>, <<72,775>>, <<72,775>>, 0, FALSE>>,
<<7715, TRUE, FALSE, TRUE, FALSE, <<7715>>, <<7714>>, <<104,775>>, <<104,775>>, 0, FALSE>>,
<<7716, TRUE, FALSE, FALSE, TRUE, <<7717>>, <<7716>>, <<72,803>>, <<72,803>>, 0, FALSE>>,
<<7717, TRUE, FALSE, TRUE, FALSE, <<7717>>, <<7716>>, <<104,803>>, <<104,803>>, 0, FALSE>>,
<<7718, TRUE, FALSE, FALSE, TRUE, <<7719>>, <<7718>>, <<72,776>>, <<72,776>>, 0, FALSE>>,
<<7719, TRUE, FALSE, TRUE, FALSE, <<7719>>, <<7718>>, <<104,776>>, <<104,776>>, 0, FALSE>>,
<<7720, TRUE, FALSE, FALSE, TRUE, <<7721>>, <<7720>>, <<72,807>>, <<72,807>>, 0, FALSE>>,
<<7721, TRUE, FALSE, TRUE, FALSE, <<7721>>, <<7720>>, <<104,807>>, <<104,807>>, 0, FALSE>>,
<<7722, TRUE, FALSE, FALSE, TRUE, <<7723>>, <<7722>>, <<72,814>>, <<72,814>>, 0, FALSE>>,
<<7723, TRUE, FALSE, TRUE, FALSE, <<7723>>, <<7722>>, <<104,814>>, <<104,814>>, 0, FALSE>>,
<<7724, TRUE, FALSE, FALSE, TRUE, <<7725>>, <<7724>>, <<73,816>>, <<73,816>>, 0, FALSE>>,
<<7725, TRUE, FALSE, TRUE, FALSE, <<7725>>, <<7724>>, <<105,816>>, <<105,816>>, 0, FALSE>>,
<<7726, TRUE, FALSE, FALSE, TRUE, <<7727>>, <<7726>>, <<207,769>>, <<207,769>>, 0, FALSE>>,
<<7727, TRUE, FALSE, TRUE, FALSE, <<7727>>, <<7726>>, <<239,769>>, <<239,769>>, 0, FALSE>>,
<<7728, TRUE, FALSE, FALSE, TRUE, <<7729>>, <<7728>>, <<75,769>>, <<75,769>>, 0, FALSE>>,
<<7729, TRUE, FALSE, TRUE, FALSE, <<7729>>, <<7728>>, <<107,769>>, <<107,769>>, 0, FALSE>>,
<<7730, TRUE, FALSE, FALSE, TRUE, <<7731>>, <<7730>>, <<75,803>>, <<75,803>>, 0, FALSE>>,
<<7731, TRUE, FALSE, TRUE, FALSE, <<7731>>, <<7730>>, <<107,803>>, <<107,803>>, 0, FALSE>>,
<<7732, TRUE, FALSE, FALSE, TRUE, <<7733>>, <<7732>>, <<75,817>>, <<75,817>>, 0, FALSE>>,
<<7733, TRUE, FALSE, TRUE, FALSE, <<7733>>, <<7732>>, <<107,817>>, <<107,817>>, 0, FALSE>>,
<<7734, TRUE, FALSE, FALSE, TRUE, <<7735>>, <<7734>>, <<76,803>>, <<76,803>>, 0, FALSE>>,
<<7735, TRUE, FALSE, TRUE, FALSE, <<7735>>, <<7734>>, <<108,803>>, <<108,803>>, 0, FALSE>>,
<<7736, TRUE, FALSE, FALSE, TRUE, <<7737>>, <<7736>>, <<7734,772>>, <<7734,772>>, 0, FALSE>>,
<<7737, TRUE, FALSE, TRUE, FALSE, <<7737>>, <<7736>>, <<7735,772>>, <<7735,772>>, 0, FALSE>>,
<<7738, TRUE, FALSE, FALSE, TRUE, <<7739>>, <<7738>>, <<76,817>>, <<76,817>>, 0, FALSE>>,
<<7739, TRUE, FALSE, TRUE, FALSE, <<7739>>, <<7738>>, <<108,817>>, <<108,817>>, 0, FALSE>>,
<<7740, TRUE, FALSE, FALSE, TRUE, <<7741>>, <<7740>>, <<76,813>>, <<76,813>>, 0, FALSE>>,
<<7741, TRUE, FALSE, TRUE, FALSE, <<7741>>, <<7740>>, <<108,813>>, <<108,813>>, 0, FALSE>>,
<<7742, TRUE, FALSE, FALSE, TRUE, <<7743>>, <<7742>>, <<77,769>>, <<77,769>>, 0, FALSE>>,
<<7743, TRUE, FALSE, TRUE, FALSE, <<7743>>, <<7742>>, <<109,769>>, <<109,769>>, 0, FALSE>>,
<<7744, TRUE, FALSE, FALSE, TRUE, <<7745>>, <<7744>>, <<77,775>>, <<77,775>>, 0, FALSE>>,
<<7745, TRUE, FALSE, TRUE, FALSE, <<7745>>, <<7744>>, <<109,775>>, <<109,775>>, 0, FALSE>>,
<<7746, TRUE, FALSE, FALSE, TRUE, <<7747>>, <<7746>>, <<77,803>>, <<77,803>>, 0, FALSE>>,
<<7747, TRUE, FALSE, TRUE, FALSE, <<7747>>, <<7746>>, <<109,803>>, <<109,803>>, 0, FALSE>>,
<<7748, TRUE, FALSE, FALSE, TRUE, <<7749>>, <<7748>>, <<78,775>>, <<78,775>>, 0, FALSE>>,
<<7749, TRUE, FALSE, TRUE, FALSE, <<7749>>, <<7748>>, <<110,775>>, <<110,775>>, 0, FALSE>>,
<<7750, TRUE, FALSE, FALSE, TRUE, <<7751>>, <<7750>>, <<78,803>>, <<78,803>>, 0, FALSE>>,
<<7751, TRUE, FALSE, TRUE, FALSE, <<7751>>, <<7750>>, <<110,803>>, <<110,803>>, 0, FALSE>>,
<<7752, TRUE, FALSE, FALSE, TRUE, <<7753>>, <<7752>>, <<78,817>>, <<78,817>>, 0, FALSE>>,
<<7753, TRUE, FALSE, TRUE, FALSE, <<7753>>, <<7752>>, <<110,817>>, <<110,817>>, 0, FALSE>>,
<<7754, TRUE, FALSE, FALSE, TRUE, <<7755>>, <<7754>>, <<78,813>>, <<78,813>>, 0, FALSE>>,
<<7755, TRUE, FALSE, TRUE, FALSE, <<7755>>, <<7754>>, <<110,813>>, <<110,813>>, 0, FALSE>>,
<<7756, TRUE, FALSE, FALSE, TRUE, <<7757>>, <<7756>>, <<213,769>>, <<213,769>>, 0, FALSE>>,
<<7757, TRUE, FALSE, TRUE, FALSE, <<7757>>, <<7756>>, <<245,769>>, <<245,769>>, 0, FALSE>>,
<<7758, TRUE, FALSE, FALSE, TRUE, <<7759>>, <<7758>>, <<213,776>>, <<213,776>>, 0, FALSE>>,
<<7759, TRUE, FALSE, TRUE, FALSE, <<7759>>, <<7758>>, <<245,776>>, <<245,776>>, 0, FALSE>>,
<<7760, TRUE, FALSE, FALSE, TRUE, <<7761>>, <<7760>>, <<332,768>>, <<332,768>>, 0, FALSE>>,
<<7761, TRUE, FALSE, TRUE, FALSE, <<7761>>, <<7760>>, <<333,768>>, <<333,768>>, 0, FALSE>>,
<<7762, TRUE, FALSE, FALSE, TRUE, <<7763>>, <<7762>>, <<332,769>>, <<332,769>>, 0, FALSE>>,
<<7763, TRUE, FALSE, TRUE, FALSE, <<7763>>, <<7762>>, <<333,769>>, <<333,769>>, 0, FALSE>>,
<<7764, TRUE, FALSE, FALSE, TRUE, <<7765>>, <<7764>>, <<80,769>>, <<80,769>>, 0, FALSE>>,
<<7765, TRUE, FALSE, TRUE, FALSE, <<7765>>, <<7764>>, <<112,769>>, <<112,769>>, 0, FALSE>>,
<<7766, TRUE, FALSE, FALSE, TRUE, <<7767>>, <<7766>>, <<80,775>>, <<80,775>>, 0, FALSE>>,
<<7767, TRUE, FALSE, TRUE, FALSE, <<7767>>, <<7766>>, <<112,775>>, <<112,775>>, 0, FALSE>>,
<<7768, TRUE, FALSE, FALSE, TRUE, <<7769>>, <<7768>>, <<82,775>>, <<82,775>>, 0, FALSE>>,
<<7769, TRUE, FALSE, TRUE, FALSE, <<7769>>, <<7768>>, <<114,775>>, <<114,775>>, 0, FALSE>>,
<<7770, TRUE, FALSE, FALSE, TRUE, <<7771>>, <<7770>>, <<82,803>>, <<82,803>>, 0, FALSE>>,
<<7771, TRUE, FALSE, TRUE, FALSE, <<7771>>, <<7770>>, <<114,803>>, <<114,803>>, 0, FALSE>>,
<<7772, TRUE, FALSE, FALSE, TRUE, <<7773>>, <<7772>>, <<7770,772>>, <<7770,772>>, 0, FALSE>>,
<<7773, TRUE, FALSE, TRUE, FALSE, <<7773>>, <<7772>>, <<7771,772>>, <<7771,772>>, 0, FALSE>>,
<<7774, TRUE, FALSE, FALSE, TRUE, <<7775>>, <<7774>>, <<82,817>>, <<82,817>>, 0, FALSE>>,
<<7775, TRUE, FALSE, TRUE, FALSE, <<7775>>, <<7774>>, <<114,817>>, <<114,817>>, 0, FALSE>>,
<<7776, TRUE, FALSE, FALSE, TRUE, <<7777>>, <<7776>>, <<83,775>>, <<83,775>>, 0, FALSE>>,
<<7777, TRUE, FALSE, TRUE, FALSE, <<7777>>, <<7776>>, <<115,775>>, <<115,775>>, 0, FALSE>>,
<<7778, TRUE, FALSE, FALSE, TRUE, <<7779>>, <<7778>>, <<83,803>>, <<83,803>>, 0, FALSE>>,
<<7779, TRUE, FALSE, TRUE, FALSE, <<7779>>, <<7778>>, <<115,803>>, <<115,803>>, 0, FALSE>>,
<<7780, TRUE, FALSE, FALSE, TRUE, <<7781>>, <<7780>>, <<346,775>>, <<346,775>>, 0, FALSE>>,
<<7781, TRUE, FALSE, TRUE, FALSE, <<7781>>, <<7780>>, <<347,775>>, <<347,775>>, 0, FALSE>>,
<<7782, TRUE, FALSE, FALSE, TRUE, <<7783>>, <<7782>>, <<352,775>>, <<352,775>>, 0, FALSE>>,
<<7783, TRUE, FALSE, TRUE, FALSE, <<7783>>, <<7782>>, <<353,775>>, <<353,775>>, 0, FALSE>>,
<<7784, TRUE, FALSE, FALSE, TRUE, <<7785>>, <<7784>>, <<7778,775>>, <<7778,775>>, 0, FALSE>>,
<<7785, TRUE, FALSE, TRUE, FALSE, <<7785>>, <<7784>>, <<7779,775>>, <<7779,775>>, 0, FALSE>>,
<<7786, TRUE, FALSE, FALSE, TRUE, <<7787>>, <<7786>>, <<84,775>>, <<84,775>>, 0, FALSE>>,
<<7787, TRUE, FALSE, TRUE, FALSE, <<7787>>, <<7786>>, <<116,775>>, <<116,775>>, 0, FALSE>>,
<<7788, TRUE, FALSE, FALSE, TRUE, <<7789>>, <<7788>>, <<84,803>>, <<84,803>>, 0, FALSE>>,
<<7789, TRUE, FALSE, TRUE, FALSE, <<7789>>, <<7788>>, <<116,803>>, <<116,803>>, 0, FALSE>>,
<<7790, TRUE, FALSE, FALSE, TRUE, <<7791>>, <<7790>>, <<84,817>>, <<84,817>>, 0, FALSE>>,
<<7791, TRUE, FALSE, TRUE, FALSE, <<7791>>, <<7790>>, <<116,817>>, <<116,817>>, 0, FALSE>>,
<<7792, TRUE, FALSE, FALSE, TRUE, <<7793>>, <<7792>>, <<84,813>>, <<84,813>>, 0, FALSE>>,
<<7793, TRUE, FALSE, TRUE, FALSE, <<7793>>, <<7792>>, <<116,813>>, <<116,813>>, 0, FALSE>>,
<<7794, TRUE, FALSE, FALSE, TRUE, <<7795>>, <<7794>>, <<85,804>>, <<85,804>>, 0, FALSE>>,
<<7795, TRUE, FALSE, TRUE, FALSE, <<7795>>, <<7794>>, <<117,804>>, <<117,804>>, 0, FALSE>>,
<<7796, TRUE, FALSE, FALSE, TRUE, <<7797>>, <<7796>>, <<85,816>>, <<85,816>>, 0, FALSE>>,
<<7797, TRUE, FALSE, TRUE, FALSE, <<7797>>, <<7796>>, <<117,816>>, <<117,816>>, 0, FALSE>>,
<<7798, TRUE, FALSE, FALSE, TRUE, <<7799>>, <<7798>>, <<85,813>>, <<85,813>>, 0, FALSE>>,
<<7799, TRUE, FALSE, TRUE, FALSE, <<7799>>, <<7798>>, <<117,813>>, <<117,813>>, 0, FALSE>>,
<<7800, TRUE, FALSE, FALSE, TRUE, <<7801>>, <<7800>>, <<360,769>>, <<360,769>>, 0, FALSE>>,
<<7801, TRUE, FALSE, TRUE, FALSE, <<7801>>, <<7800>>, <<361,769>>, <<361,769>>, 0, FALSE>>,
<<7802, TRUE, FALSE, FALSE, TRUE, <<7803>>, <<7802>>, <<362,776>>, <<362,776>>, 0, FALSE>>,
<<7803, TRUE, FALSE, TRUE, FALSE, <<7803>>, <<7802>>, <<363,776>>, <<363,776>>, 0, FALSE>>,
<<7804, TRUE, FALSE, FALSE, TRUE, <<7805>>, <<7804>>, <<86,771>>, <<86,771>>, 0, FALSE>>,
<<7805, TRUE, FALSE, TRUE, FALSE, <<7805>>, <<7804>>, <<118,771>>, <<118,771>>, 0, FALSE>>,
<<7806, TRUE, FALSE, FALSE, TRUE, <<7807>>, <<7806>>, <<86,803>>, <<86,803>>, 0, FALSE>>,
<<7807, TRUE, FALSE, TRUE, FALSE, <<7807>>, <<7806>>, <<118,803>>, <<118,803>>, 0, FALSE>>,
<<7808, TRUE, FALSE, FALSE, TRUE, <<7809>>, <<7808>>, <<87,768>>, <<87,768>>, 0, FALSE>>,
<<7809, TRUE, FALSE, TRUE, FALSE, <<7809>>, <<7808>>, <<119,768>>, <<119,768>>, 0, FALSE>>,
<<7810, TRUE, FALSE, FALSE, TRUE, <<7811>>, <<7810>>, <<87,769>>, <<87,769>>, 0, FALSE>>,
<<7811, TRUE, FALSE, TRUE, FALSE, <<7811>>, <<7810>>, <<119,769>>, <<119,769>>, 0, FALSE>>,
<<7812, TRUE, FALSE, FALSE, TRUE, <<7813>>, <<7812>>, <<87,776>>, <<87,776>>, 0, FALSE>>,
<<7813, TRUE, FALSE, TRUE, FALSE, <<7813>>, <<7812>>, <<119,776>>, <<119,776>>, 0, FALSE>>,
<<7814, TRUE, FALSE, FALSE, TRUE, <<7815>>, <<7814>>, <<87,775>>, <<87,775>>, 0, FALSE>>,
<<7815, TRUE, FALSE, TRUE, FALSE, <<7815>>, <<7814>>, <<119,775>>, <<119,775>>, 0, FALSE>>,
<<7816, TRUE, FALSE, FALSE, TRUE, <<7817>>, <<7816>>, <<87,803>>, <<87,803>>, 0, FALSE>>,
<<7817, TRUE, FALSE, TRUE, FALSE, <<7817>>, <<7816>>, <<119,803>>, <<119,803>>, 0, FALSE>>,
<<7818, TRUE, FALSE, FALSE, TRUE, <<7819>>, <<7818>>, <<88,775>>, <<88,775>>, 0, FALSE>>,
<<7819, TRUE, FALSE, TRUE, FALSE, <<7819>>, <<7818>>, <<120,775>>, <<120,775>>, 0, FALSE>>,
<<7820, TRUE, FALSE, FALSE, TRUE, <<7821>>, <<7820>>, <<88,776>>, <<88,776>>, 0, FALSE>>,
<<7821, TRUE, FALSE, TRUE, FALSE, <<7821>>, <<7820>>, <<120,776>>, <<120,776>>, 0, FALSE>>,
<<7822, TRUE, FALSE, FALSE, TRUE, <<7823>>, <<7822>>, <<89,775>>, <<89,775>>, 0, FALSE>>,
<<7823, TRUE, FALSE, TRUE, FALSE, <<7823>>, <<7822>>, <<121,775>>, <<121,775>>, 0, FALSE>>,
<<7824, TRUE, FALSE, FALSE, TRUE, <<7825>>, <<7824>>, <<90,770>>, <<90,770>>, 0, FALSE>>,
<<7825, TRUE, FALSE, TRUE, FALSE, <<7825>>, <<7824>>, <<122,770>>, <<122,770>>, 0, FALSE>>,
<<7826, TRUE, FALSE, FALSE, TRUE, <<7827>>, <<7826>>, <<90,803>>, <<90,803>>, 0, FALSE>>,
<<7827, TRUE, FALSE, TRUE, FALSE, <<7827>>, <<7826>>, <<122,803>>, <<122,803>>, 0, FALSE>>,
<<7828, TRUE, FALSE, FALSE, TRUE, <<7829>>, <<7828>>, <<90,817>>, <<90,817>>, 0, FALSE>>,
<<7829, TRUE, FALSE, TRUE, FALSE, <<7829>>, <<7828>>, <<122,817>>, <<122,817>>, 0, FALSE>>,
<<7830, TRUE, FALSE, TRUE, FALSE, <<7830>>, <<72,817>>, <<104,817>>, <<104,817>>, 0, FALSE>>,
<<7831, TRUE, FALSE, TRUE, FALSE, <<7831>>, <<84,776>>, <<116,776>>, <<116,776>>, 0, FALSE>>,
<<7832, TRUE, FALSE, TRUE, FALSE, <<7832>>, <<87,778>>, <<119,778>>, <<119,778>>, 0, FALSE>>,
<<7833, TRUE, FALSE, TRUE, FALSE, <<7833>>, <<89,778>>, <<121,778>>, <<121,778>>, 0, FALSE>>,
<<7834, TRUE, FALSE, TRUE, FALSE, <<7834>>, <<65,702>>, <<>>, <<97,702>>, 0, FALSE>>,
<<7835, TRUE, FALSE, TRUE, FALSE, <<7835>>, <<7776>>, <<383,775>>, <<383,775>>, 0, FALSE>>,
<<7836, TRUE, FALSE, TRUE, FALSE, <<7836>>, <<7836>>, <<>>, <<>>, 0, FALSE>>,
<<7837, TRUE, FALSE, TRUE, FALSE, <<7837>>, <<7837>>, <<>>, <<>>, 0, FALSE>>,
<<7838, TRUE, FALSE, FALSE, TRUE, <<223>>, <<7838>>, <<>>, <<>>, 0, FALSE>>,
<<7839, TRUE, FALSE, TRUE, FALSE, <<7839>>, <<7839>>, <<>>, <<>>, 0, FALSE>>,
<<7840, TRUE, FALSE, FALSE, TRUE, <<7841>>, <<7840>>, <<65,803>>, <<65,803>>, 0, FALSE>>,
<<7841, TRUE, FALSE, TRUE, FALSE, <<7841>>, <<7840>>, <<97,803>>, <<97,803>>, 0, FALSE>>,
<<7842, TRUE, FALSE, FALSE, TRUE, <<7843>>, <<7842>>, <<65,777>>, <<65,777>>, 0, FALSE>>,
<<7843, TRUE, FALSE, TRUE, FALSE, <<7843>>, <<7842>>, <<97,777>>, <<97,777>>, 0, FALSE>>,
<<7844, TRUE, FALSE, FALSE, TRUE, <<7845>>, <<7844>>, <<194,769>>, <<194,769>>, 0, FALSE>>,
<<7845, TRUE, FALSE, TRUE, FALSE, <<7845>>, <<7844>>, <<226,769>>, <<226,769>>, 0, FALSE>>,
<<7846, TRUE, FALSE, FALSE, TRUE, <<7847>>, <<7846>>, <<194,768>>, <<194,768>>, 0, FALSE>>,
<<7847, TRUE, FALSE, TRUE, FALSE, <<7847>>, <<7846>>, <<226,768>>, <<226,768>>, 0, FALSE>>,
<<7848, TRUE, FALSE, FALSE, TRUE, <<7849>>, <<7848>>, <<194,777>>, <<194,777>>, 0, FALSE>>,
<<7849, TRUE, FALSE, TRUE, FALSE, <<7849>>, <<7848>>, <<226,777>>, <<226,777>>, 0, FALSE>>,
<<7850, TRUE, FALSE, FALSE, TRUE, <<7851>>, <<7850>>, <<194,771>>, <<194,771>>, 0, FALSE>>,
<<7851, TRUE, FALSE, TRUE, FALSE, <<7851>>, <<7850>>, <<226,771>>, <<226,771>>, 0, FALSE>>,
<<7852, TRUE, FALSE, FALSE, TRUE, <<7853>>, <<7852>>, <<7840,770>>, <<7840,770>>, 0, FALSE>>,
<<7853, TRUE, FALSE, TRUE, FALSE, <<7853>>, <<7852>>, <<7841,770>>, <<7841,770>>, 0, FALSE>>,
<<7854, TRUE, FALSE, FALSE, TRUE, <<7855>>, <<7854>>, <<258,769>>, <<258,769>>, 0, FALSE>>,
<<7855, TRUE, FALSE, TRUE, FALSE, <<7855>>, <<7854>>, <<259,769>>, <<259,769>>, 0, FALSE>>,
<<7856, TRUE, FALSE, FALSE, TRUE, <<7857>>, <<7856>>, <<258,768>>, <<258,768>>, 0, FALSE>>,
<<7857, TRUE, FALSE, TRUE, FALSE, <<7857>>, <<7856>>, <<259,768>>, <<259,768>>, 0, FALSE>>,
<<7858, TRUE, FALSE, FALSE, TRUE, <<7859>>, <<7858>>, <<258,777>>, <<258,777>>, 0, FALSE>>,
<<7859, TRUE, FALSE, TRUE, FALSE, <<7859>>, <<7858>>, <<259,777>>, <<259,777>>, 0, FALSE>>,
<<7860, TRUE, FALSE, FALSE, TRUE, <<7861>>, <<7860>>, <<258,771>>, <<258,771>>, 0, FALSE>>,
<<7861, TRUE, FALSE, TRUE, FALSE, <<7861>>, <<7860>>, <<259,771>>, <<259,771>>, 0, FALSE>>,
<<7862, TRUE, FALSE, FALSE, TRUE, <<7863>>, <<7862>>, <<7840,774>>, <<7840,774>>, 0, FALSE>>,
<<7863, TRUE, FALSE, TRUE, FALSE, <<7863>>, <<7862>>, <<7841,774>>, <<7841,774>>, 0, FALSE>>,
<<7864, TRUE, FALSE, FALSE, TRUE, <<7865>>, <<7864>>, <<69,803>>, <<69,803>>, 0, FALSE>>,
<<7865, TRUE, FALSE, TRUE, FALSE, <<7865>>, <<7864>>, <<101,803>>, <<101,803>>, 0, FALSE>>,
<<7866, TRUE, FALSE, FALSE, TRUE, <<7867>>, <<7866>>, <<69,777>>, <<69,777>>, 0, FALSE>>,
<<7867, TRUE, FALSE, TRUE, FALSE, <<7867>>, <<7866>>, <<101,777>>, <<101,777>>, 0, FALSE>>,
<<7868, TRUE, FALSE, FALSE, TRUE, <<7869>>, <<7868>>, <<69,771>>, <<69,771>>, 0, FALSE>>,
<<7869, TRUE, FALSE, TRUE, FALSE, <<7869>>, <<7868>>, <<101,771>>, <<101,771>>, 0, FALSE>>,
<<7870, TRUE, FALSE, FALSE, TRUE, <<7871>>, <<7870>>, <<202,769>>, <<202,769>>, 0, FALSE>>,
<<7871, TRUE, FALSE, TRUE, FALSE, <<7871>>, <<7870>>, <<234,769>>, <<234,769>>, 0, FALSE>>,
<<7872, TRUE, FALSE, FALSE, TRUE, <<7873>>, <<7872>>, <<202,768>>, <<202,768>>, 0, FALSE>>,
<<7873, TRUE, FALSE, TRUE, FALSE, <<7873>>, <<7872>>, <<234,768>>, <<234,768>>, 0, FALSE>>,
<<7874, TRUE, FALSE, FALSE, TRUE, <<7875>>, <<7874>>, <<202,777>>, <<202,777>>, 0, FALSE>>,
<<7875, TRUE, FALSE, TRUE, FALSE, <<7875>>, <<7874>>, <<234,777>>, <<234,777>>, 0, FALSE>>,
<<7876, TRUE, FALSE, FALSE, TRUE, <<7877>>, <<7876>>, <<202,771>>, <<202,771>>, 0, FALSE>>,
<<7877, TRUE, FALSE, TRUE, FALSE, <<7877>>, <<7876>>, <<234,771>>, <<234,771>>, 0, FALSE>>,
<<7878, TRUE, FALSE, FALSE, TRUE, <<7879>>, <<7878>>, <<7864,770>>, <<7864,770>>, 0, FALSE>>,
<<7879, TRUE, FALSE, TRUE, FALSE, <<7879>>, <<7878>>, <<7865,770>>, <<7865,770>>, 0, FALSE>>,
<<7880, TRUE, FALSE, FALSE, TRUE, <<7881>>, <<7880>>, <<73,777>>, <<73,777>>, 0, FALSE>>,
<<7881, TRUE, FALSE, TRUE, FALSE, <<7881>>, <<7880>>, <<105,777>>, <<105,777>>, 0, FALSE>>,
<<7882, TRUE, FALSE, FALSE, TRUE, <<7883>>, <<7882>>, <<73,803>>, <<73,803>>, 0, FALSE>>,
<<7883, TRUE, FALSE, TRUE, FALSE, <<7883>>, <<7882>>, <<105,803>>, <<105,803>>, 0, FALSE>>,
<<7884, TRUE, FALSE, FALSE, TRUE, <<7885>>, <<7884>>, <<79,803>>, <<79,803>>, 0, FALSE>>,
<<7885, TRUE, FALSE, TRUE, FALSE, <<7885>>, <<7884>>, <<111,803>>, <<111,803>>, 0, FALSE>>,
<<7886, TRUE, FALSE, FALSE, TRUE, <<7887>>, <<7886>>, <<79,777>>, <<79,777>>, 0, FALSE>>,
<<7887, TRUE, FALSE, TRUE, FALSE, <<7887>>, <<7886>>, <<111,777>>, <<111,777>>, 0, FALSE>>,
<<7888, TRUE, FALSE, FALSE, TRUE, <<7889>>, <<7888>>, <<212,769>>, <<212,769>>, 0, FALSE>>,
<<7889, TRUE, FALSE, TRUE, FALSE, <<7889>>, <<7888>>, <<244,769>>, <<244,769>>, 0, FALSE>>,
<<7890, TRUE, FALSE, FALSE, TRUE, <<7891>>, <<7890>>, <<212,768>>, <<212,768>>, 0, FALSE>>,
<<7891, TRUE, FALSE, TRUE, FALSE, <<7891>>, <<7890>>, <<244,768>>, <<244,768>>, 0, FALSE>>,
<<7892, TRUE, FALSE, FALSE, TRUE, <<7893>>, <<7892>>, <<212,777>>, <<212,777>>, 0, FALSE>>,
<<7893, TRUE, FALSE, TRUE, FALSE, <<7893>>, <<7892>>, <<244,777>>, <<244,777>>, 0, FALSE>>,
<<7894, TRUE, FALSE, FALSE, TRUE, <<7895>>, <<7894>>, <<212,771>>, <<212,771>>, 0, FALSE>>,
<<7895, TRUE, FALSE, TRUE, FALSE, <<7895>>, <<7894>>, <<244,771>>, <<244,771>>, 0, FALSE>>,
<<7896, TRUE, FALSE, FALSE, TRUE, <<7897>>, <<7896>>, <<7884,770>>, <<7884,770>>, 0, FALSE>>,
<<7897, TRUE, FALSE, TRUE, FALSE, <<7897>>, <<7896>>, <<7885,770>>, <<7885,770>>, 0, FALSE>>,
<<7898, TRUE, FALSE, FALSE, TRUE, <<7899>>, <<7898>>, <<416,769>>, <<416,769>>, 0, FALSE>>,
<<7899, TRUE, FALSE, TRUE, FALSE, <<7899>>, <<7898>>, <<417,769>>, <<417,769>>, 0, FALSE>>,
<<7900, TRUE, FALSE, FALSE, TRUE, <<7901>>, <<7900>>, <<416,768>>, <<416,768>>, 0, FALSE>>,
<<7901, TRUE, FALSE, TRUE, FALSE, <<7901>>, <<7900>>, <<417,768>>, <<417,768>>, 0, FALSE>>,
<<7902, TRUE, FALSE, FALSE, TRUE, <<7903>>, <<7902>>, <<416,777>>, <<416,777>>, 0, FALSE>>,
<<7903, TRUE, FALSE, TRUE, FALSE, <<7903>>, <<7902>>, <<417,777>>, <<417,777>>, 0, FALSE>>,
<<7904, TRUE, FALSE, FALSE, TRUE, <<7905>>, <<7904>>, <<416,771>>, <<416,771>>, 0, FALSE>>,
<<7905, TRUE, FALSE, TRUE, FALSE, <<7905>>, <<7904>>, <<417,771>>, <<417,771>>, 0, FALSE>>,
<<7906, TRUE, FALSE, FALSE, TRUE, <<7907>>, <<7906>>, <<416,803>>, <<416,803>>, 0, FALSE>>,
<<7907, TRUE, FALSE, TRUE, FALSE, <<7907>>, <<7906>>, <<417,803>>, <<417,803>>, 0, FALSE>>,
<<7908, TRUE, FALSE, FALSE, TRUE, <<7909>>, <<7908>>, <<85,803>>, <<85,803>>, 0, FALSE>>,
<<7909, TRUE, FALSE, TRUE, FALSE, <<7909>>, <<7908>>, <<117,803>>, <<117,803>>, 0, FALSE>>,
<<7910, TRUE, FALSE, FALSE, TRUE, <<7911>>, <<7910>>, <<85,777>>, <<85,777>>, 0, FALSE>>,
<<7911, TRUE, FALSE, TRUE, FALSE, <<7911>>, <<7910>>, <<117,777>>, <<117,777>>, 0, FALSE>>,
<<7912, TRUE, FALSE, FALSE, TRUE, <<7913>>, <<7912>>, <<431,769>>, <<431,769>>, 0, FALSE>>,
<<7913, TRUE, FALSE, TRUE, FALSE, <<7913>>, <<7912>>, <<432,769>>, <<432,769>>, 0, FALSE>>,
<<7914, TRUE, FALSE, FALSE, TRUE, <<7915>>, <<7914>>, <<431,768>>, <<431,768>>, 0, FALSE>>,
<<7915, TRUE, FALSE, TRUE, FALSE, <<7915>>, <<7914>>, <<432,768>>, <<432,768>>, 0, FALSE>>,
<<7916, TRUE, FALSE, FALSE, TRUE, <<7917>>, <<7916>>, <<431,777>>, <<431,777>>, 0, FALSE>>,
<<7917, TRUE, FALSE, TRUE, FALSE, <<7917>>, <<7916>>, <<432,777>>, <<432,777>>, 0, FALSE>>,
<<7918, TRUE, FALSE, FALSE, TRUE, <<7919>>, <<7918>>, <<431,771>>, <<431,771>>, 0, FALSE>>,
<<7919, TRUE, FALSE, TRUE, FALSE, <<7919>>, <<7918>>, <<432,771>>, <<432,771>>, 0, FALSE>>,
<<7920, TRUE, FALSE, FALSE, TRUE, <<7921>>, <<7920>>, <<431,803>>, <<431,803>>, 0, FALSE>>,
<<7921, TRUE, FALSE, TRUE, FALSE, <<7921>>, <<7920>>, <<432,803>>, <<432,803>>, 0, FALSE>>,
<<7922, TRUE, FALSE, FALSE, TRUE, <<7923>>, <<7922>>, <<89,768>>, <<89,768>>, 0, FALSE>>,
<<7923, TRUE, FALSE, TRUE, FALSE, <<7923>>, <<7922>>, <<121,768>>, <<121,768>>, 0, FALSE>>,
<<7924, TRUE, FALSE, FALSE, TRUE, <<7925>>, <<7924>>, <<89,803>>, <<89,803>>, 0, FALSE>>,
<<7925, TRUE, FALSE, TRUE, FALSE, <<7925>>, <<7924>>, <<121,803>>, <<121,803>>, 0, FALSE>>,
<<7926, TRUE, FALSE, FALSE, TRUE, <<7927>>, <<7926>>, <<89,777>>, <<89,777>>, 0, FALSE>>,
<<7927, TRUE, FALSE, TRUE, FALSE, <<7927>>, <<7926>>, <<121,777>>, <<121,777>>, 0, FALSE>>,
<<7928, TRUE, FALSE, FALSE, TRUE, <<7929>>, <<7928>>, <<89,771>>, <<89,771>>, 0, FALSE>>,
<<7929, TRUE, FALSE, TRUE, FALSE, <<7929>>, <<7928>>, <<121,771>>, <<121,771>>, 0, FALSE>>,
<<7936, TRUE, FALSE, TRUE, FALSE, <<7936>>, <<7944>>, <<945,787>>, <<945,787>>, 0, FALSE>>,
<<7937, TRUE, FALSE, TRUE, FALSE, <<7937>>, <<7945>>, <<945,788>>, <<945,788>>, 0, FALSE>>,
<<7938, TRUE, FALSE, TRUE, FALSE, <<7938>>, <<7946>>, <<7936,768>>, <<7936,768>>, 0, FALSE>>,
<<7939, TRUE, FALSE, TRUE, FALSE, <<7939>>, <<7947>>, <<7937,768>>, <<7937,768>>, 0, FALSE>>,
<<7940, TRUE, FALSE, TRUE, FALSE, <<7940>>, <<7948>>, <<7936,769>>, <<7936,769>>, 0, FALSE>>,
<<7941, TRUE, FALSE, TRUE, FALSE, <<7941>>, <<7949>>, <<7937,769>>, <<7937,769>>, 0, FALSE>>,
<<7944, TRUE, FALSE, FALSE, TRUE, <<7936>>, <<7944>>, <<913,787>>, <<913,787>>, 0, FALSE>>,
<<7945, TRUE, FALSE, FALSE, TRUE, <<7937>>, <<7945>>, <<913,788>>, <<913,788>>, 0, FALSE>>,
<<7946, TRUE, FALSE, FALSE, TRUE, <<7938>>, <<7946>>, <<7944,768>>, <<7944,768>>, 0, FALSE>>,
<<7947, TRUE, FALSE, FALSE, TRUE, <<7939>>, <<7947>>, <<7945,768>>, <<7945,768>>, 0, FALSE>>,
<<7948, TRUE, FALSE, FALSE, TRUE, <<7940>>, <<7948>>, <<7944,769>>, <<7944,769>>, 0, FALSE>>,
<<7949, TRUE, FALSE, FALSE, TRUE, <<7941>>, <<7949>>, <<7945,769>>, <<7945,769>>, 0, FALSE>>,
<<7952, TRUE, FALSE, TRUE, FALSE, <<7952>>, <<7960>>, <<949,787>>, <<949,787>>, 0, FALSE>>,
<<7953, TRUE, FALSE, TRUE, FALSE, <<7953>>, <<7961>>, <<949,788>>, <<949,788>>, 0, FALSE>>,
<<7954, TRUE, FALSE, TRUE, FALSE, <<7954>>, <<7962>>, <<7952,768>>, <<7952,768>>, 0, FALSE>>,
<<7955, TRUE, FALSE, TRUE, FALSE, <<7955>>, <<7963>>, <<7953,768>>, <<7953,768>>, 0, FALSE>>,
<<7956, TRUE, FALSE, TRUE, FALSE, <<7956>>, <<7964>>, <<7952,769>>, <<7952,769>>, 0, FALSE>>,
<<7957, TRUE, FALSE, TRUE, FALSE, <<7957>>, <<7965>>, <<7953,769>>, <<7953,769>>, 0, FALSE>>,
<<7960, TRUE, FALSE, FALSE, TRUE, <<7952>>, <<7960>>, <<917,787>>, <<917,787>>, 0, FALSE>>,
<<7961, TRUE, FALSE, FALSE, TRUE, <<7953>>, <<7961>>, <<917,788>>, <<917,788>>, 0, FALSE>>,
<<7962, TRUE, FALSE, FALSE, TRUE, <<7954>>, <<7962>>, <<7960,768>>, <<7960,768>>, 0, FALSE>>,
<<7963, TRUE, FALSE, FALSE, TRUE, <<7955>>, <<7963>>, <<7961,768>>, <<7961,768>>, 0, FALSE>>,
<<7964, TRUE, FALSE, FALSE, TRUE, <<7956>>, <<7964>>, <<7960,769>>, <<7960,769>>, 0, FALSE>>,
<<7965, TRUE, FALSE, FALSE, TRUE, <<7957>>, <<7965>>, <<7961,769>>, <<7961,769>>, 0, FALSE>>,
<<7968, TRUE, FALSE, TRUE, FALSE, <<7968>>, <<7976>>, <<951,787>>, <<951,787>>, 0, FALSE>>,
<<7969, TRUE, FALSE, TRUE, FALSE, <<7969>>, <<7977>>, <<951,788>>, <<951,788>>, 0, FALSE>>,
<<7970, TRUE, FALSE, TRUE, FALSE, <<7970>>, <<7978>>, <<7968,768>>, <<7968,768>>, 0, FALSE>>,
<<7971, TRUE, FALSE, TRUE, FALSE, <<7971>>, <<7979>>, <<7969,768>>, <<7969,768>>, 0, FALSE>>,
<<7972, TRUE, FALSE, TRUE, FALSE, <<7972>>, <<7980>>, <<7968,769>>, <<7968,769>>, 0, FALSE>>,
<<7973, TRUE, FALSE, TRUE, FALSE, <<7973>>, <<7981>>, <<7969,769>>, <<7969,769>>, 0, FALSE>>,
<<7976, TRUE, FALSE, FALSE, TRUE, <<7968>>, <<7976>>, <<919,787>>, <<919,787>>, 0, FALSE>>,
<<7977, TRUE, FALSE, FALSE, TRUE, <<7969>>, <<7977>>, <<919,788>>, <<919,788>>, 0, FALSE>>,
<<7978, TRUE, FALSE, FALSE, TRUE, <<7970>>, <<7978>>, <<7976,768>>, <<7976,768>>, 0, FALSE>>,
<<7979, TRUE, FALSE, FALSE, TRUE, <<7971>>, <<7979>>, <<7977,768>>, <<7977,768>>, 0, FALSE>>,
<<7980, TRUE, FALSE, FALSE, TRUE, <<7972>>, <<7980>>, <<7976,769>>, <<7976,769>>, 0, FALSE>>,
<<7981, TRUE, FALSE, FALSE, TRUE, <<7973>>, <<7981>>, <<7977,769>>, <<7977,769>>, 0, FALSE>>,
<<7984, TRUE, FALSE, TRUE, FALSE, <<7984>>, <<7992>>, <<953,787>>, <<953,787>>, 0, FALSE>>,
<<7985, TRUE, FALSE, TRUE, FALSE, <<7985>>, <<7993>>, <<953,788>>, <<953,788>>, 0, FALSE>>,
<<7986, TRUE, FALSE, TRUE, FALSE, <<7986>>, <<7994>>, <<7984,768>>, <<7984,768>>, 0, FALSE>>,
<<7987, TRUE, FALSE, TRUE, FALSE, <<7987>>, <<7995>>, <<7985,768>>, <<7985,768>>, 0, FALSE>>,
<<7988, TRUE, FALSE, TRUE, FALSE, <<7988>>, <<7996>>, <<7984,769>>, <<7984,769>>, 0, FALSE>>,
<<7989, TRUE, FALSE, TRUE, FALSE, <<7989>>, <<7997>>, <<7985,769>>, <<7985,769>>, 0, FALSE>>,
<<7992, TRUE, FALSE, FALSE, TRUE, <<7984>>, <<7992>>, <<921,787>>, <<921,787>>, 0, FALSE>>,
<<7993, TRUE, FALSE, FALSE, TRUE, <<7985>>, <<7993>>, <<921,788>>, <<921,788>>, 0, FALSE>>,
<<7994, TRUE, FALSE, FALSE, TRUE, <<7986>>, <<7994>>, <<7992,768>>, <<7992,768>>, 0, FALSE>>,
<<7995, TRUE, FALSE, FALSE, TRUE, <<7987>>, <<7995>>, <<7993,768>>, <<7993,768>>, 0, FALSE>>,
<<7996, TRUE, FALSE, FALSE, TRUE, <<7988>>, <<7996>>, <<7992,769>>, <<7992,769>>, 0, FALSE>>,
<<7997, TRUE, FALSE, FALSE, TRUE, <<7989>>, <<7997>>, <<7993,769>>, <<7993,769>>, 0, FALSE>>,
<<8000, TRUE, FALSE, TRUE, FALSE, <<8000>>, <<8008>>, <<959,787>>, <<959,787>>, 0, FALSE>>,
<<8001, TRUE, FALSE, TRUE, FALSE, <<8001>>, <<8009>>, <<959,788>>, <<959,788>>, 0, FALSE>>,
<<8002, TRUE, FALSE, TRUE, FALSE, <<8002>>, <<8010>>, <<8000,768>>, <<8000,768>>, 0, FALSE>>,
<<8003, TRUE, FALSE, TRUE, FALSE, <<8003>>, <<8011>>, <<8001,768>>, <<8001,768>>, 0, FALSE>>,
<<8004, TRUE, FALSE, TRUE, FALSE, <<8004>>, <<8012>>, <<8000,769>>, <<8000,769>>, 0, FALSE>>,
<<8005, TRUE, FALSE, TRUE, FALSE, <<8005>>, <<8013>>, <<8001,769>>, <<8001,769>>, 0, FALSE>>,
<<8008, TRUE, FALSE, FALSE, TRUE, <<8000>>, <<8008>>, <<927,787>>, <<927,787>>, 0, FALSE>>,
<<8009, TRUE, FALSE, FALSE, TRUE, <<8001>>, <<8009>>, <<927,788>>, <<927,788>>, 0, FALSE>>,
<<8010, TRUE, FALSE, FALSE, TRUE, <<8002>>, <<8010>>, <<8008,768>>, <<8008,768>>, 0, FALSE>>,
<<8011, TRUE, FALSE, FALSE, TRUE, <<8003>>, <<8011>>, <<8009,768>>, <<8009,768>>, 0, FALSE>>,
<<8012, TRUE, FALSE, FALSE, TRUE, <<8004>>, <<8012>>, <<8008,769>>, <<8008,769>>, 0, FALSE>>,
<<8013, TRUE, FALSE, FALSE, TRUE, <<8005>>, <<8013>>, <<8009,769>>, <<8009,769>>, 0, FALSE>>,
<<8016, TRUE, FALSE, TRUE, FALSE, <<8016>>, <<933,787>>, <<965,787>>, <<965,787>>, 0, FALSE>>,
<<8017, TRUE, FALSE, TRUE, FALSE, <<8017>>, <<8025>>, <<965,788>>, <<965,788>>, 0, FALSE>>,
<<8018, TRUE, FALSE, TRUE, FALSE, <<8018>>, <<933,787,768>>, <<8016,768>>, <<8016,768>>, 0, FALSE>>,
<<8019, TRUE, FALSE, TRUE, FALSE, <<8019>>, <<8027>>, <<8017,768>>, <<8017,768>>, 0, FALSE>>,
<<8020, TRUE, FALSE, TRUE, FALSE, <<8020>>, <<933,787,769>>, <<8016,769>>, <<8016,769>>, 0, FALSE>>,
<<8021, TRUE, FALSE, TRUE, FALSE, <<8021>>, <<8029>>, <<8017,769>>, <<8017,769>>, 0, FALSE>>,
<<8025, TRUE, FALSE, FALSE, TRUE, <<8017>>, <<8025>>, <<933,788>>, <<933,788>>, 0, FALSE>>,
<<8027, TRUE, FALSE, FALSE, TRUE, <<8019>>, <<8027>>, <<8025,768>>, <<8025,768>>, 0, FALSE>>,
<<8029, TRUE, FALSE, FALSE, TRUE, <<8021>>, <<8029>>, <<8025,769>>, <<8025,769>>, 0, FALSE>>,
<<8032, TRUE, FALSE, TRUE, FALSE, <<8032>>, <<8040>>, <<969,787>>, <<969,787>>, 0, FALSE>>,
<<8033, TRUE, FALSE, TRUE, FALSE, <<8033>>, <<8041>>, <<969,788>>, <<969,788>>, 0, FALSE>>,
<<8034, TRUE, FALSE, TRUE, FALSE, <<8034>>, <<8042>>, <<8032,768>>, <<8032,768>>, 0, FALSE>>,
<<8035, TRUE, FALSE, TRUE, FALSE, <<8035>>, <<8043>>, <<8033,768>>, <<8033,768>>, 0, FALSE>>,
<<8036, TRUE, FALSE, TRUE, FALSE, <<8036>>, <<8044>>, <<8032,769>>, <<8032,769>>, 0, FALSE>>,
<<8037, TRUE, FALSE, TRUE, FALSE, <<8037>>, <<8045>>, <<8033,769>>, <<8033,769>>, 0, FALSE>>,
<<8040, TRUE, FALSE, FALSE, TRUE, <<8032>>, <<8040>>, <<937,787>>, <<937,787>>, 0, FALSE>>,
<<8041, TRUE, FALSE, FALSE, TRUE, <<8033>>, <<8041>>, <<937,788>>, <<937,788>>, 0, FALSE>>,
<<8042, TRUE, FALSE, FALSE, TRUE, <<8034>>, <<8042>>, <<8040,768>>, <<8040,768>>, 0, FALSE>>,
<<8043, TRUE, FALSE, FALSE, TRUE, <<8035>>, <<8043>>, <<8041,768>>, <<8041,768>>, 0, FALSE>>,
<<8044, TRUE, FALSE, FALSE, TRUE, <<8036>>, <<8044>>, <<8040,769>>, <<8040,769>>, 0, FALSE>>,
<<8045, TRUE, FALSE, FALSE, TRUE, <<8037>>, <<8045>>, <<8041,769>>, <<8041,769>>, 0, FALSE>>,
<<8048, TRUE, FALSE, TRUE, FALSE, <<8048>>, <<8122>>, <<945,768>>, <<945,768>>, 0, FALSE>>,
<<8050, TRUE, FALSE, TRUE, FALSE, <<8050>>, <<8136>>, <<949,768>>, <<949,768>>, 0, FALSE>>,
<<8052, TRUE, FALSE, TRUE, FALSE, <<8052>>, <<8138>>, <<951,768>>, <<951,768>>, 0, FALSE>>,
<<8054, TRUE, FALSE, TRUE, FALSE, <<8054>>, <<8154>>, <<953,768>>, <<953,768>>, 0, FALSE>>,
<<8056, TRUE, FALSE, TRUE, FALSE, <<8056>>, <<8184>>, <<959,768>>, <<959,768>>, 0, FALSE>>,
<<8058, TRUE, FALSE, TRUE, FALSE, <<8058>>, <<8170>>, <<965,768>>, <<965,768>>, 0, FALSE>>,
<<8060, TRUE, FALSE, TRUE, FALSE, <<8060>>, <<8186>>, <<969,768>>, <<969,768>>, 0, FALSE>>,
<<8064, TRUE, FALSE, TRUE, FALSE, <<8064>>, <<7944,921>>, <<7936,837>>, <<7936,837>>, 0, FALSE>>,
<<8065, TRUE, FALSE, TRUE, FALSE, <<8065>>, <<7945,921>>, <<7937,837>>, <<7937,837>>, 0, FALSE>>,
<<8066, TRUE, FALSE, TRUE, FALSE, <<8066>>, <<7946,921>>, <<7938,837>>, <<7938,837>>, 0, FALSE>>,
<<8067, TRUE, FALSE, TRUE, FALSE, <<8067>>, <<7947,921>>, <<7939,837>>, <<7939,837>>, 0, FALSE>>,
<<8068, TRUE, FALSE, TRUE, FALSE, <<8068>>, <<7948,921>>, <<7940,837>>, <<7940,837>>, 0, FALSE>>,
<<8069, TRUE, FALSE, TRUE, FALSE, <<8069>>, <<7949,921>>, <<7941,837>>, <<7941,837>>, 0, FALSE>>,
<<8072, TRUE, FALSE, FALSE, FALSE, <<8064>>, <<7944,921>>, <<7944,837>>, <<7944,837>>, 0, FALSE>>,
<<8073, TRUE, FALSE, FALSE, FALSE, <<8065>>, <<7945,921>>, <<7945,837>>, <<7945,837>>, 0, FALSE>>,
<<8074, TRUE, FALSE, FALSE, FALSE, <<8066>>, <<7946,921>>, <<7946,837>>, <<7946,837>>, 0, FALSE>>,
<<8075, TRUE, FALSE, FALSE, FALSE, <<8067>>, <<7947,921>>, <<7947,837>>, <<7947,837>>, 0, FALSE>>,
<<8076, TRUE, FALSE, FALSE, FALSE, <<8068>>, <<7948,921>>, <<7948,837>>, <<7948,837>>, 0, FALSE>>,
<<8077, TRUE, FALSE, FALSE, FALSE, <<8069>>, <<7949,921>>, <<7949,837>>, <<7949,837>>, 0, FALSE>>,
<<8080, TRUE, FALSE, TRUE, FALSE, <<8080>>, <<7976,921>>, <<7968,837>>, <<7968,837>>, 0, FALSE>>,
<<8081, TRUE, FALSE, TRUE, FALSE, <<8081>>, <<7977,921>>, <<7969,837>>, <<7969,837>>, 0, FALSE>>,
<<8082, TRUE, FALSE, TRUE, FALSE, <<8082>>, <<7978,921>>, <<7970,837>>, <<7970,837>>, 0, FALSE>>,
<<8083, TRUE, FALSE, TRUE, FALSE, <<8083>>, <<7979,921>>, <<7971,837>>, <<7971,837>>, 0, FALSE>>,
<<8084, TRUE, FALSE, TRUE, FALSE, <<8084>>, <<7980,921>>, <<7972,837>>, <<7972,837>>, 0, FALSE>>,
<<8085, TRUE, FALSE, TRUE, FALSE, <<8085>>, <<7981,921>>, <<7973,837>>, <<7973,837>>, 0, FALSE>>,
<<8088, TRUE, FALSE, FALSE, FALSE, <<8080>>, <<7976,921>>, <<7976,837>>, <<7976,837>>, 0, FALSE>>,
<<8089, TRUE, FALSE, FALSE, FALSE, <<8081>>, <<7977,921>>, <<7977,837>>, <<7977,837>>, 0, FALSE>>,
<<8090, TRUE, FALSE, FALSE, FALSE, <<8082>>, <<7978,921>>, <<7978,837>>, <<7978,837>>, 0, FALSE>>,
<<8091, TRUE, FALSE, FALSE, FALSE, <<8083>>, <<7979,921>>, <<7979,837>>, <<7979,837>>, 0, FALSE>>,
<<8092, TRUE, FALSE, FALSE, FALSE, <<8084>>, <<7980,921>>, <<7980,837>>, <<7980,837>>, 0, FALSE>>,
<<8093, TRUE, FALSE, FALSE, FALSE, <<8085>>, <<7981,921>>, <<7981,837>>, <<7981,837>>, 0, FALSE>>,
<<8096, TRUE, FALSE, TRUE, FALSE, <<8096>>, <<8040,921>>, <<8032,837>>, <<8032,837>>, 0, FALSE>>,
<<8097, TRUE, FALSE, TRUE, FALSE, <<8097>>, <<8041,921>>, <<8033,837>>, <<8033,837>>, 0, FALSE>>,
<<8098, TRUE, FALSE, TRUE, FALSE, <<8098>>, <<8042,921>>, <<8034,837>>, <<8034,837>>, 0, FALSE>>,
<<8099, TRUE, FALSE, TRUE, FALSE, <<8099>>, <<8043,921>>, <<8035,837>>, <<8035,837>>, 0, FALSE>>,
<<8100, TRUE, FALSE, TRUE, FALSE, <<8100>>, <<8044,921>>, <<8036,837>>, <<8036,837>>, 0, FALSE>>,
<<8101, TRUE, FALSE, TRUE, FALSE, <<8101>>, <<8045,921>>, <<8037,837>>, <<8037,837>>, 0, FALSE>>,
<<8104, TRUE, FALSE, FALSE, FALSE, <<8096>>, <<8040,921>>, <<8040,837>>, <<8040,837>>, 0, FALSE>>,
<<8105, TRUE, FALSE, FALSE, FALSE, <<8097>>, <<8041,921>>, <<8041,837>>, <<8041,837>>, 0, FALSE>>,
<<8106, TRUE, FALSE, FALSE, FALSE, <<8098>>, <<8042,921>>, <<8042,837>>, <<8042,837>>, 0, FALSE>>,
<<8107, TRUE, FALSE, FALSE, FALSE, <<8099>>, <<8043,921>>, <<8043,837>>, <<8043,837>>, 0, FALSE>>,
<<8108, TRUE, FALSE, FALSE, FALSE, <<8100>>, <<8044,921>>, <<8044,837>>, <<8044,837>>, 0, FALSE>>,
<<8109, TRUE, FALSE, FALSE, FALSE, <<8101>>, <<8045,921>>, <<8045,837>>, <<8045,837>>, 0, FALSE>>,
<<8112, TRUE, FALSE, TRUE, FALSE, <<8112>>, <<8120>>, <<945,774>>, <<945,774>>, 0, FALSE>>,
<<8113, TRUE, FALSE, TRUE, FALSE, <<8113>>, <<8121>>, <<945,772>>, <<945,772>>, 0, FALSE>>,
<<8114, TRUE, FALSE, TRUE, FALSE, <<8114>>, <<8122,921>>, <<8048,837>>, <<8048,837>>, 0, FALSE>>,
<<8115, TRUE, FALSE, TRUE, FALSE, <<8115>>, <<913,921>>, <<945,837>>, <<945,837>>, 0, FALSE>>,
<<8116, TRUE, FALSE, TRUE, FALSE, <<8116>>, <<902,921>>, <<940,837>>, <<940,837>>, 0, FALSE>>,
<<8120, TRUE, FALSE, FALSE, TRUE, <<8112>>, <<8120>>, <<913,774>>, <<913,774>>, 0, FALSE>>,
<<8121, TRUE, FALSE, FALSE, TRUE, <<8113>>, <<8121>>, <<913,772>>, <<913,772>>, 0, FALSE>>,
<<8122, TRUE, FALSE, FALSE, TRUE, <<8048>>, <<8122>>, <<913,768>>, <<913,768>>, 0, FALSE>>,
<<8124, TRUE, FALSE, FALSE, FALSE, <<8115>>, <<913,921>>, <<913,837>>, <<913,837>>, 0, FALSE>>,
<<8130, TRUE, FALSE, TRUE, FALSE, <<8130>>, <<8138,921>>, <<8052,837>>, <<8052,837>>, 0, FALSE>>,
<<8131, TRUE, FALSE, TRUE, FALSE, <<8131>>, <<919,921>>, <<951,837>>, <<951,837>>, 0, FALSE>>,
<<8132, TRUE, FALSE, TRUE, FALSE, <<8132>>, <<905,921>>, <<942,837>>, <<942,837>>, 0, FALSE>>,
<<8136, TRUE, FALSE, FALSE, TRUE, <<8050>>, <<8136>>, <<917,768>>, <<917,768>>, 0, FALSE>>,
<<8138, TRUE, FALSE, FALSE, TRUE, <<8052>>, <<8138>>, <<919,768>>, <<919,768>>, 0, FALSE>>,
<<8140, TRUE, FALSE, FALSE, FALSE, <<8131>>, <<919,921>>, <<919,837>>, <<919,837>>, 0, FALSE>>,
<<8144, TRUE, FALSE, TRUE, FALSE, <<8144>>, <<8152>>, <<953,774>>, <<953,774>>, 0, FALSE>>,
<<8145, TRUE, FALSE, TRUE, FALSE, <<8145>>, <<8153>>, <<953,772>>, <<953,772>>, 0, FALSE>>,
<<8146, TRUE, FALSE, TRUE, FALSE, <<8146>>, <<921,776,768>>, <<970,768>>, <<970,768>>, 0, FALSE>>,
<<8152, TRUE, FALSE, FALSE, TRUE, <<8144>>, <<8152>>, <<921,774>>, <<921,774>>, 0, FALSE>>,
<<8153, TRUE, FALSE, FALSE, TRUE, <<8145>>, <<8153>>, <<921,772>>, <<921,772>>, 0, FALSE>>,
<<8154, TRUE, FALSE, FALSE, TRUE, <<8054>>, <<8154>>, <<921,768>>, <<921,768>>, 0, FALSE>>,
<<8160, TRUE, FALSE, TRUE, FALSE, <<8160>>, <<8168>>, <<965,774>>, <<965,774>>, 0, FALSE>>,
<<8161, TRUE, FALSE, TRUE, FALSE, <<8161>>, <<8169>>, <<965,772>>, <<965,772>>, 0, FALSE>>,
<<8162, TRUE, FALSE, TRUE, FALSE, <<8162>>, <<933,776,768>>, <<971,768>>, <<971,768>>, 0, FALSE>>,
<<8164, TRUE, FALSE, TRUE, FALSE, <<8164>>, <<929,787>>, <<961,787>>, <<961,787>>, 0, FALSE>>,
<<8165, TRUE, FALSE, TRUE, FALSE, <<8165>>, <<8172>>, <<961,788>>, <<961,788>>, 0, FALSE>>,
<<8168, TRUE, FALSE, FALSE, TRUE, <<8160>>, <<8168>>, <<933,774>>, <<933,774>>, 0, FALSE>>,
<<8169, TRUE, FALSE, FALSE, TRUE, <<8161>>, <<8169>>, <<933,772>>, <<933,772>>, 0, FALSE>>,
<<8170, TRUE, FALSE, FALSE, TRUE, <<8058>>, <<8170>>, <<933,768>>, <<933,768>>, 0, FALSE>>,
<<8172, TRUE, FALSE, FALSE, TRUE, <<8165>>, <<8172>>, <<929,788>>, <<929,788>>, 0, FALSE>>,
<<8173, FALSE, FALSE, FALSE, FALSE, <<8173>>, <<8173>>, <<168,768>>, <<168,768>>, 0, FALSE>>,
<<8178, TRUE, FALSE, TRUE, FALSE, <<8178>>, <<8186,921>>, <<8060,837>>, <<8060,837>>, 0, FALSE>>,
<<8179, TRUE, FALSE, TRUE, FALSE, <<8179>>, <<937,921>>, <<969,837>>, <<969,837>>, 0, FALSE>>,
<<8180, TRUE, FALSE, TRUE, FALSE, <<8180>>, <<911,921>>, <<974,837>>, <<974,837>>, 0, FALSE>>,
<<8184, TRUE, FALSE, FALSE, TRUE, <<8056>>, <<8184>>, <<927,768>>, <<927,768>>, 0, FALSE>>,
<<8186, TRUE, FALSE, FALSE, TRUE, <<8060>>, <<8186>>, <<937,768>>, <<937,768>>, 0, FALSE>>,
<<8188, TRUE, FALSE, FALSE, FALSE, <<8179>>, <<937,921>>, <<937,837>>, <<937,837>>, 0, FALSE>>,
<<8192, FALSE, TRUE, FALSE, FALSE, <<8192>>, <<8192>>, <<8194>>, <<8194>>, 0, TRUE>>,
<<8193, FALSE, TRUE, FALSE, FALSE, <<8193>>, <<8193>>, <<8195>>, <<8195>>, 0, TRUE>>,
<<8194, FALSE, TRUE, FALSE, FALSE, <<8194>>, <<8194>>, <<>>, <<32>>, 0, FALSE>>,
<<8195, FALSE, TRUE, FALSE, FALSE, <<8195>>, <<8195>>, <<>>, <<32>>, 0, FALSE>>,
<<8196, FALSE, TRUE, FALSE, FALSE, <<8196>>, <<8196>>, <<>>, <<32>>, 0, FALSE>>,
<<8197, FALSE, TRUE, FALSE, FALSE, <<8197>>, <<8197>>, <<>>, <<32>>, 0, FALSE>>,
<<8198, FALSE, TRUE, FALSE, FALSE, <<8198>>, <<8198>>, <<>>, <<32>>, 0, FALSE>>,
<<8199, FALSE, TRUE, FALSE, FALSE, <<8199>>, <<8199>>, <<>>, <<32>>, 0, FALSE>>,
<<8200, FALSE, TRUE, FALSE, FALSE, <<8200>>, <<8200>>, <<>>, <<32>>, 0, FALSE>>,
<<8201, FALSE, TRUE, FALSE, FALSE, <<8201>>, <<8201>>, <<>>, <<32>>, 0, FALSE>>,
<<8202, FALSE, TRUE, FALSE, FALSE, <<8202>>, <<8202>>, <<>>, <<32>>, 0, FALSE>>,
<<8203, FALSE, FALSE, FALSE, FALSE, <<8203>>, <<8203>>, <<>>, <<>>, 0, FALSE>>,
<<8205, TRUE, FALSE, FALSE, FALSE, <<8205>>, <<8205>>, <<>>, <<>>, 0, FALSE>>,
<<8217, FALSE, FALSE, FALSE, FALSE, <<8217>>, <<8217>>, <<>>, <<>>, 0, FALSE>>,
<<8232, FALSE, TRUE, FALSE, FALSE, <<8232>>, <<8232>>, <<>>, <<>>, 0, FALSE>>,
<<8233, FALSE, TRUE, FALSE, FALSE, <<8233>>, <<8233>>, <<>>, <<>>, 0, FALSE>>,
<<8239, FALSE, TRUE, FALSE, FALSE, <<8239>>, <<8239>>, <<>>, <<32>>, 0, FALSE>>,
<<8255, TRUE, FALSE, FALSE, FALSE, <<8255>>, <<8255>>, <<>>, <<>>, 0, FALSE>>,
<<8260, FALSE, FALSE, FALSE, FALSE, <<8260>>, <<8260>>, <<>>, <<>>, 0, FALSE>>,
<<8287, FALSE, TRUE, FALSE, FALSE, <<8287>>, <<8287>>, <<>>, <<32>>, 0, FALSE>>,
<<8364, FALSE, FALSE, FALSE, FALSE, <<8364>>, <<8364>>, <<>>, <<>>, 0, FALSE>>,
<<8482, FALSE, FALSE, FALSE, FALSE, <<8482>>, <<8482>>, <<>>, <<84,77>>, 0, FALSE>>,
<<8486, TRUE, FALSE, FALSE, TRUE, <<969>>, <<8486>>, <<937>>, <<937>>, 0, TRUE>>,
<<8491, TRUE, FALSE, FALSE, TRUE, <<229>>, <<8491>>, <<197>>, <<197>>, 0, TRUE>>,
<<9312, FALSE, FALSE, FALSE, FALSE, <<9312>>, <<9312>>, <<>>, <<49>>, 0, FALSE>>,
<<12288, FALSE, TRUE, FALSE, FALSE, <<12288>>, <<12288>>, <<>>, <<32>>, 0, FALSE>>,
<<20013, TRUE, FALSE, FALSE, FALSE, <<20013>>, <<20013>>, <<>>, <<>>, 0, FALSE>>,
<<25991, TRUE, FALSE, FALSE, FALSE, <<25991>>, <<25991>>, <<>>, <<>>, 0, FALSE>>,
<<44032, TRUE, FALSE, FALSE, FALSE, <<44032>>, <<44032>>, <<>>, <<>>, 0, FALSE>>,
<<44033, TRUE, FALSE, FALSE, FALSE, <<44033>>, <<44033>>, <<>>, <<>>, 0, FALSE>>,
<<54620, TRUE, FALSE, FALSE, FALSE, <<54620>>, <<54620>>, <<>>, <<>>, 0, FALSE>>,
<<55203, TRUE, FALSE, FALSE, FALSE, <<55203>>, <<55203>>, <<>>, <<>>, 0, FALSE>>,
<<64256, TRUE, FALSE, TRUE, FALSE, <<64256>>, <<70,70>>, <<>>, <<102,102>>, 0, FALSE>>,
<<64257, TRUE, FALSE, TRUE, FALSE, <<64257>>, <<70,73>>, <<>>, <<102,105>>, 0, FALSE>>,
<<65279, FALSE, FALSE, FALSE, FALSE, <<65279>>, <<65279>>, <<>>, <<>>, 0, FALSE>>,
<<65297, TRUE, FALSE, FALSE, FALSE, <<65297>>, <<65297>>, <<>>, <<49>>, 0, FALSE>>,
<<65313, TRUE, FALSE, FALSE, TRUE, <<65345>>, <<65313>>, <<>>, <<65>>, 0, FALSE>>,
<<65345, TRUE, FALSE, TRUE, FALSE, <<65345>>, <<65313>>, <<>>, <<97>>, 0, FALSE>>,
<<119070, FALSE, FALSE, FALSE, FALSE, <<119070>>, <<119070>>, <<>>, <<>>, 0, FALSE>>,
<<128077, FALSE, FALSE, FALSE, FALSE, <<128077>>, <<128077>>, <<>>, <<>>, 0, FALSE>>,
<<128512, FALSE, FALSE, FALSE, FALSE, <<128512>>, <<128512>>, <<>>, <<>>, 0, FALSE>>
>>
====
