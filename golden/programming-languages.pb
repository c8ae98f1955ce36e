
�K�љ�ް�ޙ�ް���ް���ް����ް����ް����ް����ް����ް����ް����ް��ް����ް��ް��ް����ް��ް���ް����ް����ް����ް����ް����ް����ްཛྷ�ް����ް�ǜ�ް�ǜ�ް�Ȝ�ް�Μ�ް�Ϝ�ް�Ϝ�ް�М�ް�ל�ް�ל�ް�؜�ް���ް���ް����ް����ް����ް����ް����ް����ް����ްෝ�ް����ް����ް�ĝ�ް�ɝ�ް�ɝ�ް�ʝ�ް�ѝ�ް�ҝ�ް�ם�ް�ם�ް�؝�ް�ߝ�ް�ߝ�ް����ް���ް���ް����ް����ް����ް����ް��ް����ް����ް��ް����ް��ް�ޞ�ް���ް����ް����ް����ް����ް����ް����ް����ް����ް��ް����ް����ް��ް����ް����ް����ް�ş�ް�ş�ް�ʟ�ް�Ο�ް�ן�ް�ٟ�ް�ٟ�ް�ڟ�ް�ߟ�ް�ߟ�ް����ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ްО��ް����ް����ްв��ް����ްЬ��ް����ް����ްв��ް����ް����ް�¡�ް�ʡ�ް�ʡ�ް���ް���ް���ް���ް���ް���ް���ް����ްК��ް����ް����ްТ��ް����ް��ް����ް��ް����ް�Ģ�ް�Ԣ�ް�բ�ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ϣ�ް�У�ް�ף�ް�أ�ް�ޣ�ް�ߣ�ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ä�ް�Ǥ�ް�Ȥ�ް�Ȥ�ް�ɤ�ް�ͤ�ް�ͤ�ް�Τ�ް�ݤ�ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ĥ�ް�ȥ�ް�Υ�ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްས�ް����ް����ް����ް�֫�ް�٫�ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް��ްи��ް����ްй��ް����ްк��ް�׬�ް����ް����ް����ްభ�ް�ѭ�ް�ۭ�ް���ް���ް���ް���ް����ް����ް����ްБ��ްЛ��ްШ��ް����ް����ް��ް����ް����ްн��ް����ް�Ю�ް�ޮ�ް�ޮ�ް�߮�ް���ް���ް����ް����ްБ��ް����ް�Я�ް�ү�ް�ݯ�ް�ޯ�ް�ޯ�ް���ް���ް���ް����ްІ��ް�Ȱ�ް�Ȱ�ް�˰�ް����ް����ް����ް઱�ް�ݱ�ް�ޱ�ް����ް����ް��ް����ް��ްл��ް����ްм��ް�Ĳ�ް�Ų�ް�Ʋ�ް�Ʋ�ް�ǲ�ް�β�ް�β�ް�ϲ�ް�ϲ�ް�Բ�ް�޲�ް���ް���ް����ް��ް����ް��ް����ް����ް��ް����ް�ó�ް�ܳ�ް���ް���ް���ް����ް����ް��ް����ް��ް��ް����ް��ް����ް��ް����ް�д�ް�ܴ�ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްО��ް����ްП��ްШ��ް����ްЩ��ް����ް�ȵ�ް�ȵ�ް���ް���ް����ް���ް���ް���ް����ް����ް����ް��ް��ް����ް�Ŷ�ް�̶�ް�̶�ް���ް���ް���ް����ް����ްЌ��ް����ްЍ��ްЏ��ް����ް��ް����ް����ްЭ��ް����ްЯ��ް����ްа��ްж��ް����ްз��ް�շ�ް�ַ�ް�ַ�ް�ط�ް�ط�ް�ܷ�ް���ް���ް����ް����ް���ް����ް����ް����ް��ް����ް��ް����ްସ�ް����ް��ް����ް�̸�ް�ظ�ް���ް���ް���ް����ް����ް����ް����ްЫ��ްа��ް�Ź�ް�ȹ�ް�ȹ�ް�˹�ް�̹�ް�̹�ް���ް���ް���ް���ް���ް���ް���ް���ް����ްЀ��ްЁ��ް����ްЂ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް��ްв��ް�ɺ�ް�ɺ�ް�˺�ް�Ѻ�ް�Ѻ�ް�Һ�ް�Ժ�ް���ް����ް����ް����ް����ް����ްЙ��ް����ްК��ްа��ްм��ް����ް�û�ް�Ļ�ް�Ļ�ް�Ż�ް�ѻ�ް���ް����ް����ް����ް����ް����ް����ް����ްР��ް����ް����ްХ��ް�ȼ�ް�ͼ�ް�μ�ް�Ѽ�ް�ռ�ް�ּ�ް����ް����ްЀ��ް����ްЏ��ް����ް�ʽ�ް�˽�ް�˽�ް�̽�ް���ް����ް����ް��ް����ް��ް����ް��ް����ްм��ް����ްн��ް����ް����ް�¾�ް�ؾ�ްн��ް����ްо��ް����ް����ް����ް�¿�ް�¿�ް�ÿ�ް�˿�ް�̿�ް���ް����ް����ް����ްЎ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްО��ް����ް����ް����ް����ް����ް����ް����ް����ްЂ��ް����ް���ް���ް����ް����ް����ް����ް����ް����ް����ްХ��ް����ް����ް����ް����ް����ް���ް����ްЩ��ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ްЙ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްА��ް����ްЗ��ް����ްл��ް����ް����ް����ް����ް����ް����ް����ް����ް���ްо��ް����ް����ް����ް����ްЊ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЂ��ްЄ��ްІ��ް����ްЇ��ް����ް���ް����ް���ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ްА��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЃ��ް����ް����ް����ްЗ��ް����ް����ް����ް����ް����ް����ް���ް����ް����ްо��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЫ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް����ް���ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް���ް����ް���ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ްл��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް���ް����ްв��ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްК��ް����ްЛ��ް���ް����ް���ް����ް����ް����ް����ް����ްБ��ް����ްВ��ްК��ް����ްЩ��ް����ް����ްк��ް����ްл��ް����ް����ް����ް����ް����ް����ް����ްЯ��ް����ް����ް����ް����ްЖ��ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް��ް����ް��ް��ް�ڀ�ް�݀�ް����ް����ް����ް����ް����ް����ް����ްЋ��ް����ްЌ��ް����ްЍ��ް��ްЫ��ް����ް����ް��ް�Ł�ް�Ɓ�ް��ް����ް����ް�ڃ�ް���ް����ްЁ��ް����ް��ް����ް����ް����ް��ް����ް��ް��ް�Å�ް�Å�ް�Յ�ް�օ�ް�ׅ�ް���ްЍ��ް��ް����ްк��ްн��ް����ްо��ް�چ�ް���ް����ް����ް��ް����ްл��ް����ްм��ް����ް����ް����ްЖ��ްН��ް����ްО��ް����ް���ް���ް���ް���ް���ް���ް���ް���ް���ް����ް����ް�����ް����ްෝ�ް��ް�բ�ް����ް���ް����ް����ް����ް���ް���ް���ް���ް����ް����ް����ް�˹�ް��ްв��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�љ�ްx����ް�ޙ�ްo����ް���ްB�ܳ�ް���ް-����ް����ްo����ް����ްl����ް����ްa����ް����ް-����ް����ް2����ް����ް3����ް����ްT����ް����ްIЭ��ް��ްl����ް����ްe��ް��ް ����ް��ްo����ް����ްr��ް��ްi�ү�ް���ްP�ܳ�ް����ްb����ް����ްD����ް����ްQ���ް����ްN����ް����ްc����ް����ްP����ް����ްEཛྷ�ްཛྷ�ްC����ް����ް ����ް�ǜ�ްt�ǜ�ް�ǜ�ްa�Ȝ�ް�Ȝ�ްb��ް�Μ�ްp����ް�Ϝ�ްn�Ϝ�ް�Ϝ�ްb�М�ް�М�ްu����ް�ל�ް-�ל�ް�ל�ްM�؜�ް�؜�ްA���ް���ްl���ް���ްiЄ��ް����ްr����ް����ްg����ް����ްh����ް����ްe����ް����ްr�̹�ް����ް#����ް����ް-����ް����ްA�ן�ް����ްF����ް����ްLෝ�ް����ްO����ް����ްP��ް����ްS����ް����ްa����ް����ްe����ް����ްj�Ѽ�ް����ްl���ް����ްo����ް����ްr���ް����ްt�ۭ�ްෝ�ްO����ް����ްW�ל�ް����ްS���ް�ĝ�ްL�ɝ�ް�ɝ�ްi�ɝ�ް�ɝ�ްs�ʝ�ް�ʝ�ްp����ް�ѝ�ްc�ҝ�ް�ѝ�ްt����ް�ҝ�ްa�ߟ�ް�ҝ�ްh����ް�ם�ްi�ם�ް�ם�ްg�؝�ް�؝�ްr����ް�ߝ�ްP�ߝ�ް�ߝ�ްL����ް����ް/����ް���ްA�̶�ް���ްl����ް����ްE����ް����ް ����ް����ްP�ʡ�ް����ްc��ް����ްl����ް����ްn����ް��ްt����ް����ްo����ް����ްI��ް��ްE����ް����ްV����ް��ްo����ް�ޞ�ްM����ް���ްT����ް����ްC����ް����ްI���ް����ްR�ޞ�ް����ްA���ް����ްU����ް����ްf���ް����ްb����ް����ްo����ް����ްtл��ް����ްA����ް����ްC����ް����ްLЀ��ް����ްS����ް����ްn����ް��ްr����ް����ްc����ް����ްt��ް����ް ��ް��ްI����ް����ްM����ް����ްU����ް����ްa����ް�ş�ްo�ş�ް�ş�ްy����ް�ʟ�ްc���ް�ʟ�ްl����ް�ʟ�ްp����ް�ʟ�ްs�ĝ�ް�Ο�ްn����ް�ן�ްU����ް�ٟ�ްs�ٟ�ް�ٟ�ް �ڟ�ް�ڟ�ްL���ް�ߟ�ްp�ߟ�ް�ߟ�ްa����ް����ްd����ް���ްM���ް���ްA����ް���ްi���ް���ްm����ް���ްx���ް���ްi����ް����ް ����ް����ްR����ް����ްo����ް����ްr����ް����ްaО��ް����ްp����ްО��ްa����ް����ްc����ް����ްPв��ްв��ްG����ް����ްEЬ��ްЬ��ް ����ް����ްm����ް����ްeв��ްв��ްc����ް����ްu�ǜ�ް����ްh��ް�¡�ްu����ް�ʡ�ްL�ʡ�ް�ʡ�ްU����ް���ްr���ް���ްa���ް���ްlЄ��ް���ްB���ް���ްP����ް���ްa���ް���ްs����ް���ްf�̹�ް����ްA����ްК��ްa����ްК��ްe���ް����ްc�ٟ�ް����ްE����ް����ްY����ްТ��ްs����ް����ްe����ް����ްy����ް��ްi�Ϝ�ް����ް �ߝ�ް��ްo����ް����ްs����ް�Ģ�ްg����ް�Ģ�ްo����ް�Ԣ�ްD�բ�ް�Ԣ�ްP����ް�Ԣ�ްR����ް�Ԣ�ްS����ް�Ԣ�ްT����ް�բ�ް/����ް����ްK����ް����ް-����ް����ްI����ް����ްV����ް����ްe����ް����ްm����ް����ްb����ް����ްl����ް����ްP�ϣ�ް�ϣ�ްE�У�ް�У�ްR����ް�ף�ްV�أ�ް�أ�ްI����ް�ޣ�ްe�ߣ�ް�ޣ�ްh����ް�ޣ�ްt���ް�ߣ�ް-����ް���ްl���ް���ްe����ް����ްs����ް����ް3����ް����ްa����ް����ްd�ү�ް����ްg��ް����ްd�Ǥ�ް����ްl����ް����ްi�ܴ�ް����ްe����ް����ްC����ް����ްS����ް����ްi����ް����ްc����ް����ްr����ް����ްo���ް����ްo����ް����ްo����ް����ްn�ү�ް�ä�ް-����ް�Ǥ�ްw�Ȥ�ް�Ȥ�ްe�Ȥ�ް�Ȥ�ްr�ɤ�ް�ɤ�ްk����ް�ͤ�ްa�ͤ�ް�ͤ�ްP�Τ�ް�Τ�ްA����ް�ݤ�ްE����ް�ݤ�ްL����ް���ްs���ް���ްo���ް���ްf���ް���ްt����ް���ްa����ް���ްc���ް���ްs���ް���ްt���ް����ްe����ް����ްl����ް����ް+����ް����ް ����ް����ްA����ް����ްs����ް����ްs����ް����ް1����ް����ްN����ް����ްS����ް����ްl����ް����ްe����ް����ްl����ް����ްm�ȥ�ް����ްn�Ģ�ް����ްs����ް����ްt�ޣ�ް����ްv����ް����ްy����ް����ްP�ĥ�ް����ް ����ް����ްb����ް����ްM����ް����ް ����ް����ްM����ް�ĥ�ްo����ް�ȥ�ްb����ް�ȥ�ްn����ް�Υ�ްs����ް���ް#���ް���ްA����ް���ްC�ä�ް���ްI����ް���ްP����ް���ްS�ݤ�ް���ްY�ͤ�ް���ްa����ް���ްe����ް���ްi����ް���ްo���ް���ްu���ް���ްy����ް���ް ����ް���ްg���ް���ްo����ް���ްtЙ��ް����ްn����ް����ް2����ް����ް4����ް����ްA�Ԣ�ް����ްD���ް����ްI����ް����ްL����ް����ްO���ް����ްP����ް����ްS����ް����ްU�ݱ�ް����ްa����ް����ްe����ް����ްi����ް����ްo����ް����ް0����ް����ް0����ް����ްT����ް����ްb�ף�ް����ްd����ް����ްg����ް����ްs�Υ�ް����ްv�ү�ް����ްe����ް����ްL����ް����ްN����ް����ްS����ް����ްA����ް����ްy����ް����ް ����ް����ްx����ް����ް8�ѻ�ް����ްj����ް����ްt����ް����ްdས�ްས�ް7����ް����ް �Ŷ�ް����ްX����ް����ްI���ް�֫�ް0����ް�֫�ް8����ް�٫�ް6����ް���ްA����ް���ްC���ް���ްI���ް���ްY����ް���ްa����ް���ްe����ް���ްi����ް���ްo����ް���ްr����ް���ްy����ް���ްo���ް���ްf���ް���ްt����ް����ް ����ް����ްa����ް����ްo����ް����ްp����ް����ްh����ް����ްi����ް����ްM����ް��ްy����ްи��ް ����ްи��ްO����ްи��ްP���ްи��ްe�ѭ�ް����ްnй��ްй��ްo����ް����ްtк��ްк��ްa����ް�׬�ްz�ٟ�ް����ްo����ް����ްa����ް����ްh����ް����ްi��ް����ްrХ��ް����ްB����ް����ްC��ް����ްP����ް����ްR����ް����ްaК��ް����ްb����ް����ްc����ް����ްm����ް����ްn��ް����ްp���ް����ްr���ް����ްx����ް����ްz����ްభ�ްnК��ް�ѭ�ްn����ް�ۭ�ްe����ް���ްA���ް���ްM���ް���ްO����ް���ްS����ް���ްc����ް���ްs���ް����ްM����ް����ްa����ް����ްb����ް����ްp���ްБ��ްO����ްБ��ްP���ްЛ��ްM����ްШ��ްa����ް����ްL����ް����ްc����ް����ްf����ް����ްr��ް��ްi����ް����ްcК��ް����ްm�¡�ްн��ްa����ް����ްv����ް�Ю�ް#���ް�Ю�ް+����ް�Ю�ް-����ް�Ю�ްB����ް�Ю�ްC����ް�Ю�ްI���ް�Ю�ްL�Ɓ�ް�Ю�ްMБ��ް�Ю�ްP���ް�Ю�ްR����ް�Ю�ްT����ް�Ю�ްWм��ް�Ю�ްc����ް�Ю�ްd����ް�Ю�ްg����ް�Ю�ްl�Ȱ�ް�Ю�ްm���ް�Ю�ްp����ް�Ю�ްr���ް�Ю�ްs����ް�Ю�ްt����ް�Ю�ްu����ް�Ю�ްv����ް�Ю�ްx����ް�ޮ�ްh�ޮ�ް�ޮ�ްs����ް�ޮ�ްo�߮�ް�߮�ްm���ް���ް ����ް���ް+����ް���ްA����ް���ްE�Ź�ް���ްO����ް���ްP�ȼ�ް���ްS���ް���ްT�ȵ�ް���ްa����ް���ްe����ް���ްl�˰�ް���ްo����ް���ްu����ް����ްt����ް����ްtБ��ްБ��ްe����ް����ްRм��ް�Я�ްr����ް�ү�ްa����ް�ݯ�ްb�ޯ�ް�ݯ�ްt����ް�ݯ�ްw����ް�ޯ�ްr�ޯ�ް�ޯ�ްe����ް���ް-���ް���ްAЙ��ް���ްEЗ��ް���ްIЀ��ް���ްM����ް���ްO����ް���ްP����ް���ްT���ް���ްU����ް���ްX���ް���ްc����ް���ްeЎ��ް���ްi���ް���ްo�Ĳ�ް���ްrО��ް���ްu���ް���ްyЍ��ް���ްS����ް���ް0����ް����ް4����ްІ��ްt����ް�Ȱ�ްe�Ȱ�ް�Ȱ�ްi�д�ް�Ȱ�ްm�ط�ް�Ȱ�ްf����ް�˰�ްa����ް����ްk����ް����ްn����ް����ްv����ް����ްz����ް����ްa����ް઱�ްa�ܴ�ް�ݱ�ްM�ޱ�ް�ޱ�ްP����ް����ްj���ް����ްl�ү�ް��ް��������ް����ް ��ް��ްO����ްл��ްo����ްл��ްr����ް����ްpм��ްм��ްl����ް�Ĳ�ްm����ް�Ĳ�ްp�Ų�ް�Ų�ްs�Ʋ�ް�Ʋ�ްp�Ʋ�ް�Ʋ�ްe�ǲ�ް�ǲ�ްeЄ��ް�β�ްn�β�ް�β�ްE�ϲ�ް�ϲ�ްd�ϲ�ް�ϲ�ްg����ް�Բ�ްrК��ް�޲�ްs�̹�ް���ް:���ް���ްc����ް���ްX����ް����ްe��ް��ް ����ް����ްA��ް��ްB���ް����ްi���ް����ްm����ް����ްO��ް��ްR����ް����ްGЀ��ް�ó�ްe����ް�ܳ�ްO���ް���ްe���ް���ްr���ް���ްC����ް���ްTЙ��ް����ްe����ް����ްm����ް��ްr����ް����ްo��ް��ްg����ް��ްP����ް����ްT��ް��ްO�̶�ް����ްn��ް��ް ����ް����ްC����ް�д�ްc����ް�ܴ�ްn����ް���ްL����ް���ްs����ް���ްtА��ް����ް ����ް����ްS����ް����ްt����ް����ްuн��ް����ްa����ް����ްl����ް����ްo����ް����ްg����ް����ްc����ް����ްm����ް����ްn���ް����ްy����ް����ްh����ް����ް������ްО��ްA����ްО��ްL����ްО��ްa����ްО��ްi��ްО��ްo����ްО��ްu����ްО��ްy����ް����ްLП��ްП��ް/����ްШ��ްV����ް����ްiЩ��ްЩ��ްs���ް����ްu�д�ް�ȵ�ްL�ȵ�ް�ȵ�ް/����ް���ްF����ް���ްa����ް����ްn�׬�ް���ްb���ް���ްi����ް���ްi���ް���ްe����ް����ް-����ް����ްa�ܴ�ް����ްe����ް����ްe��ް����ްi����ް����ްj����ް����ްl����ް����ްo����ް��ްr����ް��ްp����ް����ްp����ް�Ŷ�ް5����ް�Ŷ�ް6�֫�ް�Ŷ�ްW����ް�̶�ްI�̶�ް�̶�ްN����ް���ްI���ް���ްT���ް���ްY����ް����ްc����ް����ްe����ް����ްt����ް����ް �ַ�ް����ް#����ް����ް+����ް����ް-����ް����ް/����ް����ްD����ް����ްF����ް����ްH����ް����ްI����ް����ްL����ް����ްM����ް����ްO����ް����ްP���ް����ްS����ް����ްa����ް����ްe���ް����ްg����ް����ްh�˹�ް����ްi����ް����ްl�ȹ�ް����ްo����ް����ްs����ް����ްu����ް����ްy����ްЌ��ްt����ް����ްkЍ��ްЍ��ްe����ްЏ��ްL�Ł�ް����ްo��ް��ްH����ް��ްI����ް��ްL����ް��ްc����ް����ްoЌ��ް����ްS����ްЭ��ްI����ް����ް Я��ްЯ��ްl����ް����ްaа��ްа��ްn����ްж��ްr����ް����ްaз��ްз��ްn����ް�շ�ްn�ַ�ް�ַ�ްS�ַ�ް�ַ�ްh����ް�ط�ްa�ط�ް�ط�ް-����ް�ܷ�ްa����ް�ܷ�ްd����ް���ްa���ް���ްe����ް���ްv����ް����ްr����ް����ްs����ް����ްw����ް����ްt����ް���ްi����ް����ްl����ް����ްEЀ��ް����ްI����ް����ްR����ް����ްa����ް����ްo����ް����ްo��ް��ްl����ް����ްl��ް��ްi����ް����ް#����ް����ް+����ް����ްA����ް����ްC���ް����ްE���ް����ްO����ް����ްS����ް����ްa����ް����ްo����ް����ްuА��ްସ�ްe����ް����ްr����ް��ްa����ް����ްk�ó�ް�̸�ްp����ް�ظ�ް/К��ް�ظ�ްA����ް�ظ�ްI�̶�ް�ظ�ްS����ް���ްE����ް���ްc���ް���ްl����ް���ްs���ް���ްy����ް���ްi����ް����ްo����ް����ްi����ް����ް8����ް����ްPЫ��ްЫ��ްI����ްа��ްiЁ��ް�Ź�ްB�ܳ�ް�Ź�ްF����ް�Ź�ްX����ް�ȹ�ްa�ȹ�ް�ȹ�ްe઱�ް�ȹ�ްi��ް�ȹ�ްo����ް�ȹ�ްi���ް�ȹ�ްr����ް�˹�ްa�̹�ް�˹�ްe�Ȱ�ް�˹�ްu����ް�̹�ްp�̹�ް�̹�ްr����ް�̹�ްe����ް���ްr����ް���ްi���ް���ްt����ް���ްM���ް���ްa���ް���ްk����ް���ްV���ް���ްEЀ��ް����ްc���ްЀ��ްE����ްЁ��ްl����ް����ްdЂ��ްЂ��ްPм��ް����ްu����ް����ްa����ް����ްl����ް����ް ����ް����ްB����ް����ްC�Ժ�ް����ްD����ް����ްF����ް����ްJ����ް����ްO����ް����ްP�ռ�ް����ްa����ް����ްs����ް����ްi����ް����ްp��ް��ްe����ްв��ްP���ްв��ްa��ްв��ްi����ްв��ްt����ްв��ްu��ް�ɺ�ްt�ɺ�ް�ɺ�ްr઱�ް�˺�ްr����ް�Ѻ�ްi�Ѻ�ް�Ѻ�ްo�Һ�ް�Һ�ްn����ް�Ժ�ް#����ް���ްa����ް���ްe�β�ް���ްt����ް����ްn����ް����ްt����ް����ްTЙ��ް����ްt����ް����ްr����ްЙ��ްa����ް����ްlК��ްК��ްk����ްа��ްO���ްм��ްK����ް����ްA���ް����ްM����ް����ްT����ް�û�ްe�Ļ�ް�Ļ�ް �Ļ�ް�Ļ�ް3�Ż�ް�Ż�ްD����ް�ѻ�ް6����ް���ްu���ް����ްX����ް����ްa����ް����ްc����ް����ްt����ް����ްl����ް����ްs����ް����ްe�޲�ް����ްl����ްР��ްT����ް����ްA����ް����ްuХ��ްХ��ްe����ްХ��ްi����ް�ȼ�ްG����ް�ȼ�ްL����ް�ͼ�ްf�μ�ް�μ�ްe����ް�Ѽ�ް����н��ް�ռ�ްr�ּ�ް�ּ�ްo����ް����ް0����ް����ްiЀ��ްЀ��ްq����ް����ްCЏ��ް����ްN���ް����ްbସ�ް����ްm�̸�ް����ްnЩ��ްЏ��ްS����ް����ްDЇ��ް�ʽ�ްl�˽�ް�˽�ް �˽�ް�˽�ްC�̽�ް�̽�ް+����ް���ްu����ް����ްs����ް����ްi�Μ�ް��ްi����ް����ްn��ް��ްe����ް����ްE��ް��ްX����ް����ް#����ް����ް+����ްм��ްr����ް����ްoн��ްн��ްf����ް����ްc����ް����ްr�¾�ް�¾�ްi����ް�ؾ�ްe����ް�ؾ�ްk����ްн��ްd����ް����ްiо��ްо��ްo����ް����ް ����ް����ްV����ް����ްi�¿�ް�¿�ްs�¿�ް�¿�ްu�ÿ�ް�ÿ�ްa�ʽ�ް�˿�ް�����̿�ް�̿�ްd�̹�ް���ްc����ް���ްi�̹�ް���ްw����ް����ް ����ް����ްm����ް����ް!����ް����ްd���ް����ްo����ް����ްs����ްЎ��ްX����ްЎ��ްa����ް����ްr����ް����ްn����ް����ްa����ް����ްl����ް����ް ����ް����ްI����ް����ްL���ް����ްn����ް����ްo����ް����ްn����ް����ްv����ް����ްr����ް����ްt����ްО��ްb����ް����ްi����ް����ްn����ް����ްt����ް����ްe����ް����ްF����ް����ްl����ް����ްl����ް����ްe����ް����ްoЂ��ްЂ��ްp����ް����ް �ڀ�ް���ް-����ް���ްI���ް���ްL����ް���ްM�݀�ް���ްS����ް���ްC����ް����ްO����ް����ް0����ް����ްp���ް����ްn����ް����ްi����ް����ްn����ް����ްe����ްХ��ްa����ްХ��ްi����ް����ްt����ް����ްe����ް����ްs����ް����ްs�Ѻ�ް����ް+����ް���ްs����ް����ްk����ްЩ��ްi����ް����ްa����ް���ްc����ް���ްg����ް����ްa����ް����ްl����ް����ްl����ް����ް ����ް����ްtЙ��ް����ްa����ް����ްc����ް����ްO����ް����ްS���ް����ްT����ްЙ��ްC����ްЙ��ްD����ްЙ��ްL����ް����ްL����ް����ްP�ܳ�ް����ްI���ް����ްL����ް����ްC����ް����ްI����ް����ްU����ް����ްS����ް����ް-����ް����ް4����ް����ްG���ް����ްk����ް����ްm����ް����ްt����ް����ްw���ް����ްc����ް����ްp����ް����ްt����ް����ް�����˿�ް����ް-����ް����ްA����ް����ްD���ް����ްE����ް����ްJ����ް����ްL����ް����ްM����ް����ްN����ް����ްO����ް����ްP����ް����ްR���ް����ްa����ް����ްe����ް����ްi����ް����ްo����ް����ްr����ް����ްc����ް����ްo����ް����ްtн��ްА��ްo����ް����ްbЩ��ްЗ��ްC���ްЗ��ްL���ްЗ��ްX����ް����ްdл��ްл��ް ����ް����ްP��ް����ްT����ް����ްR����ް����ްI����ް����ްO����ް����ްI����ް����ްS����ް����ްT����ް����ްg����ް����ްaЂ��ް���ްC�̶�ް���ްM����ްо��ްd����ްо��ްe����ްо��ްl�Ȱ�ްо��ްn����ްо��ްq����ް����ްe����ް����ްr����ް����ްN���ް����ްbЊ��ްЊ��ްj����ް����ްe����ް����ްn����ް����ްa����ް����ްo����ް����ްn����ް����ްeІ��ް����ްC����ް����ްL����ް����ްY��ް����ްcІ��ް����ްl����ް����ްo�ܴ�ްЂ��ް Ѐ��ްЄ��ްd����ްІ��ްn����ް����ްtЇ��ްЇ��ް ����ް����ްa����ް����ްe���ް���ްf����ް����ްl���ް���ްo����ް����ްw����ް����ްa���ް���ްp����ް����ްP����ް����ްa����ް����ްs����ް����ްa����ް����ްrЄ��ް����ްm����ް����ްe����ް����ްd����ް����ްL���ްА��ްl��ް����ްc����ް����ްe����ް����ްs����ް����ްi����ް����ްa����ް����ްt����ް����ްe����ް����ްl����ް����ްl����ް����ްs�ޯ�ްЃ��ްs����ް����ްp����ް����ްc����ް����ް З��ް����ް-����ްЗ��ްE����ް����ްX���ް����ްb��ް����ްm����ް����ްp����ް����ް.����ް����ްL����ް����ްR����ް����ްD����ް����ްa����ް����ްt�ү�ް���ްh����ް����ްi����ް����ްrо��ްо��ްa����ް����ްm����ް����ްm����ް����ްi����ް����ްn����ް����ް-����ް����ް/����ް����ް3�٫�ް����ްA����ް����ްE����ް����ްa����ް����ްu����ް����ްn����ް����ްk����ް����ްa����ް����ްl����ް����ްk����ް����ްc����ް����ްu����ް����ްr����ް����ްe�љ�ް����ްpЫ��ްЫ��ްt���ް����ްI����ް����ްM����ް����ްG����ް����ް,����ް����ް ����ް����ްc����ް����ްo����ް����ްm����ް����ްu����ް����ްl����ް����ްa����ް����ް-����ް����ްp����ް����ްi����ް����ްl����ް����ްe����ް����ްr����ް����ްE���ް����ްA����ް����ް/����ް����ްM����ް����ްo����ް����ްd����ް����ްk����ް����ްs����ް����ް ���ް���ްs�ַ�ް���ްB����ް����ްO����ް����ްL���ް���ް)����ް����ްi����ް����ްC����ް����ްL����ް����ްT���ް����ްP����ް����ްn����ް����ްR���ް���ްD���ް����ްr����ް����ްi����ް����ްa����ް����ް#����ް����ް+����ް����ް1����ް����ްB���ް����ްC����ް����ްL����ް����ްO����ް����ްP����ް����ްQ����ް����ްS����ް����ްx����ް����ްr����ް����ްo�ם�ް����ްu����ް����ްn����ް����ްk����ް����ް-����ް����ް/����ް����ް2����ް����ް3����ް����ްA���ް����ްB���ް����ްE����ް����ްI����ް����ްL����ް����ްM����ް����ްN����ް����ްO���ް����ްP�ظ�ް����ްR����ް����ްYЛ��ް����ްa�ݯ�ް����ްc����ް����ްeо��ް����ްh����ް����ްiН��ް����ްm����ް����ްnБ��ް����ްp઱�ް����ްq����ް����ްt����ް����ްu����ް����ްy����ް����ްL����ް����ްP�ʡ�ް����ްl����ް����ްo����ް����ްr����ް����ްl����ް����ްr����ް����ްn���ް���ްe����ް����ް ����ް����ްA���ް����ްI����ް����ްS����ް����ްP���ް����ްb����ް����ްd����ް����ްh�ޙ�ް����ްr�ɺ�ް����ްu���ް����ްe����ް����ްC����ް����ްs����ް����ްc����ް����ްt����ް����ް+����ް���ްr�ү�ް����ްt����ް����ްe����ް����ްS����ް����ްt����ް����ްe����ް����ްx����ް����ްS����ް����ްi����ް����ްc����ް����ްr����ް����ްf����ް����ްo����ް����ްr����ް����ްd�ү�ް����ްi����ް����ްo���ް����ްO����ް����ްG���ް����ްB����ް����ްL����ް����ްI����ް����ްa�շ�ް����ްr����ް����ްI����ް����ްc����ް����ްp���ް���ްl����ް���ްy����ް����ްh����ް����ްb����ް����ްb����ް����ްs����ް����ްt����ް����ްQ���ް����ްk����ް����ްb����ް����ްj����ް����ްe����ް����ްg����ް����ް ����ް����ްL����ް����ްo����ް����ްy����ް����ްb����ް����ްt����ް����ްo����ް����ްr����ް����ްl����ް����ްe����ް����ްe����ް����ްc����ް����ްt����ް����ް ����ް����ްL����ް����ްi����ް����ްL���ް����ްP����ް����ްR����ް����ްo����ް����ް*����ް����ްc���ް����ްgк��ް����ްl����ް����ްm����ް����ްv����ް����ްo����ް����ްu����ް���ް ����ް����ްa���ް���ްs����ް���ްd����ް����ްl����ް���ްW����ް����ްs����ް����ްi����ް����ްc���ް����ްa����ް����ްr����ް����ްr����ް����ްt����ް����ްE���ް����ްo�Ο�ް����ްg����ް����ްe����ް����ްi����ް����ްc����ް����ްe����ް����ްo����ް����ްl���ް����ްr����ް���ްe����ް����ްi����ް���ްI����ް����ްS����ް����ްI����ް����ްM����ް����ްVЖ��ް����ްe����ް����ްp����ް����ްt����ް����ްP���ް����ްt����ް����ްe����ް����ްr����ް����ްL����ް����ްA����ް����ްB����ް����ްa����ް����ްb����ް����ްlЀ��ް����ްm����ް����ްV����ް����ްe����ް����ްr����ް����ްi����ް����ްl����ް����ްQ���ް����ްo����ް����ްa����ް����ްc�ؾ�ް����ްh����ް����ްn����ް����ްd�ү�ް����ްn����ް����ްt����ް����ް ���ް����ްr����ް����ްm����ް����ްa����ް����ްn����ް����ްA�̶�ް����ްI����ް����ްA����ް����ްC����ް����ްEР��ް����ްL���ް����ްP����ް����ްR����ް����ްa����ް����ްe����ް����ްi����ް����ްl����ް����ްo����ް����ްuа��ް����ްI���ް����ްS����ް����ްc�Я�ް����ްu����ް����ްe����ް����ްs����ް����ްw�ܴ�ް����ްi����ް����ްg����ް����ްcм��ް���ްc����ް���ްk����ް���ްp����ް���ްz����ް����ްo����ް����ްt����ް����ްUЂ��ް����ްB����ް����ްC����ް����ްD���ް����ްM����ް����ްP����ް����ްS����ް����ްc����ް����ްd����ް����ްn����ް����ްo����ް����ްM����ް����ްn����ް����ް ����ް����ްp����ް����ްu����ް����ްi����ް����ްp����ް����ްe����ް����ްr����ް����ްx���ް����ްt����ް����ްh����ް����ްr����ް����ްm����ް����ްr����ް����ްs����ް����ްx����ް����ްi����ް����ްb����ް����ްs����ް����ްa����ް����ްe����ް����ްs����ް����ްe����ް����ްr����ް����ްa����ް����ްm����ް����ް-����ް����ް��������ް����ް��������ް����ްn����ް����ްs����ް����ްc����ް����ްC����ް����ްh����ް����ްa����ް����ްrІ��ް����ްo����ް����ްc����ް����ްl����ް����ްr����ް����ްr����ް����ްo���ް����ްl����ް����ްi����ް����ްn����ް����ްn����ް����ްo����ް����ްu����ް����ްA����ް����ްE����ް����ްG���ް����ްP���ް����ްS����ް����ްW����ް����ްa����ް����ްe����ް����ްi����ް����ްo����ް����ްu����ް����ްS����ް����ްT����ް����ްm����ް����ްeж��ް����ްn����ް����ް-����ް����ްU����ް����ްR����ް����ްL���ް����ްP����ް����ްk����ް����ްe����ް����ްo����ް����ްh����ް����ް!����ް����ްS����ް����ްg����ް����ް.����ް����ްj����ް����ްN����ް����ްo����ް����ްd����ް����ްe����ް����ްM����ް����ްP����ް����ްS���ް����ްW����ް����ްo����ް����ްl����ް����ްu����ް����ްt����ް���ްL����ް����ްS����ް����ްg����ް����ްD����ް����ްI����ް����ްR����ް����ްI����ް����ް/����ް����ް ����ް����ްJ����ް����ްa����ް����ްo����ް����ްd���ް���ްe����ް����ްl�Յ�ް����ްM����ް����ްS����ް����ްP�ܳ�ް����ްS����ް����ް0����ް����ްB����ް����ްC����ް����ްI����ް����ްM����ް����ްP����ް����ްS����ް����ް��������ް����ް��������ް���ްiЃ��ް����ްB����ް����ްa����ް����ްs����ް����ްi����ް����ްl����ް����ްt����ް����ްo����ް����ްo����ް����ްDЀ��ް����ްL����ް����ްS����ް����ްl઱�ް����ްl����ް����ްi����ް����ްp����ް����ްt����ް����ް ����ް����ްA���ް����ްI����ް����ްP���ް����ްc����ް����ްt����ް����ްe����ް����ްAЏ��ް����ްe����ް����ްy����ް����ް ����ް����ްp����ް����ްe����ް����ްaК��ް����ްB�ܳ�ް����ްDЀ��ް����ްM����ް����ްW����ް����ްE����ް����ްVЀ��ް����ްs����ް����ް ����ް����ްP����ް����ްo����ް����ްw����ް����ްe����ް����ްr�ַ�ް����ްo����ް����ްw����ް����ްL����ް����ް0����ް���ްP����ް����ް-����ް����ް.����ް����ްJ����ް����ްl����ް����ް ����ް����ް6�ѻ�ް����ްa����ް����ްS����ް����ް ����ް����ްL����ް����ްI����ް����ްa����ް����ްe����ް���ް ����ް����ް/���ް���ް Ш��ް���ްu����ް����ްa���ް���ްl����ް���ްo����ް����ްn���ް���ްk����ް����ްA����ް����ްI����ް����ްo����ް����ްr�ɺ�ް����ްx����ް����ްy����ް����ްy����ް����ްA����ް����ްR���ް����ްC����ް����ްR����ް����ްAЀ��ް����ްt����ް����ްS����ް����ްP����ް����ްI����ް����ްT���ް����ްe����ް����ްu����ް����ްl����ް����ް ����ް����ްi����ް����ް2���ް����ްi����ް����ްu����ް����ްy����ް����ްn����ް����ްe����ް����ްa����ް����ްu����ް����ްd����ް����ްi�ү�ް����ްv����ް����ްU����ް����ްX����ް����ް1����ް����ް ����ް����ްP����ް����ްX����ް����ްe����ް����ްj����ް����ްi����ް����ްS����ް����ްV����ް����ްc����ް����ްt����ް����ްi����ް����ްc�ү�ް���ްe����ް����ްs���ް���ްs����ް����ްi���ް���ްn����ް����ްB���ް����ްc����ް����ްn����ް����ްi����ް����ްM����ް����ްa�Բ�ް����ްt����ް����ް#����ް����ްA����ް����ްC����ް����ްD���ް����ްE����ް����ްH����ް����ްI����ް����ްL����ް����ްO���ް����ްP���ް����ްR����ް����ްa����ް����ްeл��ް����ްh����ް����ްi���ް����ްl����ް����ްo����ް����ްr����ް����ްu���ް����ްy����ް����ްH����ް����ްa����ް����ްr����ް����ްb����ް����ްl����ް����ްi����ް����ްr����ް����ްh����ް����ްe����ް����ްm����ް����ްa����ް����ްn����ް����ްb����ް����ްd����ް����ްu����ް����ްa���ް���ްg����ް����ްb���ް���ްo����ް����ްI����ް����ްC����ް����ް ����ް����ްl����ް����ްa����ް����ްK����ް����ްL����ް����ްG����ް����ްd����ް����ްo����ް����ްs����ް����ްc����ް����ްa����ް����ްi����ް����ްt����ް����ްa����ް����ްF����ް����ްb����ް����ްl����ް����ްy����ް����ްe����ް����ްm����ް���ްM����ް����ްg����ް����ްu����ް����ްa����ް����ްg�û�ް����ްv����ް����ްe����ް����ް-����ް����ްC����ް����ްJ����ް����ް ����ް����ްB����ް����ްH���ް����ްI����ް����ްR����ް����ްa����ް����ްc����ް����ްg���ް����ްp����ް����ްr����ް����ްt����ް����ްx����ް����ްy�ү�ް����ްh����ް����ްi����ް����ްi����ް����ްd����ް����ްg����ް����ްs����ް����ްt����ް����ްw����ް����ްT����ް����ްc����ް����ްp����ް����ްe����ް����ްr����ް����ްJ����ް����ްa����ް����ްF����ް����ްS����ް����ްX����ް����ްO���ް���ްB����ް����ްO���ް���ްL����ް����ް(����ް����ްL����ް����ްT���ް���ްS����ް����ްp����ް����ްs����ް����ްA����ް����ްr����ް����ްa����ް����ްnЄ��ް����ްt����ް����ް ����ް����ްQ����ް����ްe����ް����ްu����ް����ްi����ް����ްtЫ��ް����ްr����ް����ްn����ް����ްe����ް����ްu����ް����ްs����ް����ްm����ް����ްh����ް����ްe�˺�ް����ްA����ް����ްL����ް����ްu���ް����ްb���ް����ްf�ͼ�ް����ްl�ܷ�ް����ްm����ް����ްn����ް����ްo����ް����ްq����ް����ްr����ް����ްm����ް����ްe����ް����ް ���ް����ްM���ް����ްr����ް����ްs�ү�ް����ްtШ��ް����ްu����ް����ްe����ް����ްn���ް����ްt����ް����ްF����ް����ް8����ް����ްn����ް����ްg����ް����ްu����ް����ް ����ް����ްP����ް����ްp����ް����ްi����ް����ްe����ް����ްr����ް����ްg����ް����ްm����ް���ްc����ް����ްe���ް����ްBл��ް����ްH���ް����ްS����ް����ްa����ް����ްe����ް����ްi����ް����ްv����ްл��ްA����ްл��ްS����ް����ްi���ް����ްT���ް����ްN����ް����ްf����ް����ްo����ް����ްr����ް����ްV����ް����ްa����ް����ްn����ް����ްL����ް����ްP����ް����ްW����ް����ް-����ް����ްc����ް����ްo����ް����ްm����ް����ްp����ް����ްs���ް����ްv��ް���ްL����ް���ްt����ް����ްr���ް���ްa����ް����ްTв��ްв��ްO�У�ް����ްi���ް���ްn����ް����ްt����ް����ްn����ް����ްd����ް����ްlК��ް����ްe����ް����ްc����ް����ްt����ް����ްS���ް����ް ����ް����ްH����ް����ްa����ްК��ްi����ް����ްnЛ��ްЛ��ްg����ް���ްr����ް����ްb���ް����ްiз��ް���ްo�˽�ް����ްC����ް����ްv����ް����ް ����ް����ްR����ް����ްuК��ްБ��ްo����ް����ްwВ��ްВ��ްb����ްК��ްl����ް����ްe����ްЩ��ްi����ްЩ��ްr����ް����ްc����ް����ްf�ڃ�ް����ްx����ް����ްCк��ްк��ްR����ް����ްIл��ްл��ްP����ް����ްi����ް����ްl����ް����ްm����ް����ްi����ް����ްx����ް����ްS����ް����ްE����ްЯ��ްs����ް����ްe����ް����ްO����ް����ްv�ү�ް����ްaЖ��ްЖ��ްk����ް����ްz�ү�ް���ްt����ް����ްL����ް����ްS���ް���ް5����ް����ްi����ް����ްf����ް����ްt����ް����ްr����ް����ްm�ү�ް����ްM���ް��ްA����ް��ްe����ް��ްi����ް����ްT��ް��ްF���ް��ްg����ް�ڀ�ްD����ް�݀�ް7�ѻ�ް����ްf����ް����ްi����ް����ްo����ް����ްv����ް����ްh����ް����ް ����ް����ްL���ް����ްeЋ��ްЋ��ްr����ް����ްBЌ��ް����ްS�ַ�ް����ްh����ްЌ��ްu����ް����ްiЍ��ްЍ��ްl����ް��ްl����ްЫ��ްe����ް����ް ����ް����ްl��ް����ްr���ް��ްi����ް�Ł�ްG�ܳ�ް�Ɓ�ްF����ް�Ɓ�ްGа��ް��ްe����ް����ްs����ް����ްL����ް�ڃ�ްa�д�ް���ްA����ް����ްAЁ��ް����ްF����ްЁ��ްS����ް����ްl��ް��ް ����ް����ްA����ް����ް#����ް����ްA����ް����ްC���ް����ްG���ް����ްL���ް����ްS���ް����ްX����ް����ްaТ��ް����ްd��ް����ްi����ް����ްl���ް����ްmК��ް����ްp�ם�ް����ްr���ް����ްs�ѝ�ް����ްt�ş�ް����ްu�ʟ�ް����ްx����ް����ްs��ް��ްs����ް����ްe��ް��ްl�˰�ް��ްm�Å�ް�Å�ްb�Å�ް�Å�ްl����ް�Յ�ްi�օ�ް�օ�ްn�ׅ�ް�ׅ�ްg����ް���ްiК��ް���ްm�ү�ްЍ��ްp����ް��ްe����ް����ްr���ްк��ްr����ްн��ް��������ް����ްlо��ްо��ްn���ް�چ�ް@���ް�چ�ްA�Ю�ް�چ�ްB����ް�چ�ްC����ް�چ�ްD���ް�چ�ްE����ް�چ�ްF����ް�چ�ްG����ް�چ�ްHО��ް�چ�ްI����ް�چ�ްJ����ް�چ�ްK����ް�چ�ްL���ް�چ�ްM����ް�چ�ްN����ް�چ�ްO����ް�چ�ްP����ް�چ�ްQв��ް�چ�ްR���ް�چ�ްS����ް�چ�ްT���ް�چ�ްU����ް�چ�ްV����ް�چ�ްW��ް�چ�ްX����ް�چ�ްY����ް�چ�ްZи��ް�چ�ްb����ް�چ�ްc�ޮ�ް�چ�ްd����ް�چ�ްe����ް�چ�ްkЯ��ް�چ�ްm����ް�چ�ްn��ް�چ�ްo���ް�چ�ްr����ް�چ�ްx����ް���ްmО��ް����ްSл��ް����ް2����ް��ްa����ް����ްm����ްл��ްY����ް����ްTм��ްм��ްR����ް����ްC����ް����ްF���ް����ްn����ްЖ��ްA����ްН��ްm����ް����ްuО��ްО��ްl����ް����ްa����ް����ްiభ�ް���ްe���ް���ްv���ް���ްe����ް���ްI���ް���ްV���ް���ް,���ް���ް ���ް���ްW���ް���ްA����ް����ްT����ް����ްFв��ް �چ�ް(�