
�{�ș�ް�ș�ް�ə�ް�ə�ް�ʙ�ް�ۙ�ް�ۙ�ް�ܙ�ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ɚ�ް�ʚ�ްЋ��ްЌ��ްЍ��ްГ��ްЕ��ްЙ��ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�Ġ�ް�Š�ް�ɠ�ް�̠�ް�Ϡ�ް�Ѡ�ް�Ԡ�ް���ް���ް���ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ްଦ�ް����ް����ް຦�ް����ް໦�ް�Ѧ�ް�Ҧ�ް�Ҧ�ް�Ӧ�ް�Ӧ�ް�Ԧ�ް�Ԧ�ް�ߦ�ް���ް���ް���ް���ް����ް����ް����ް����ް����ްЃ��ް����ްГ��ް����ް����ްК��ް����ްП��ް����ްР��ް����ް�ګ�ް�۫�ް���ް���ް���ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް��ް����ް��ް����ް��ް����ް����ްТ��ް����ްУ��ް����ްж��ް����ްз��ް����ް����ް����ް�¬�ް�¬�ް�Ҭ�ް�Ҭ�ް�Ӭ�ް�Ӭ�ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް஭�ް����ް௭�ް����ް����ް��ް�ƭ�ް�ƭ�ް�ǭ�ް�ϭ�ް�ϭ�ް�Э�ް�Э�ް�߭�ް���ް���ް���ް����ް����ް����ްЊ��ް����ްЋ��ް����ްИ��ް����ްЙ��ް����ްХ��ް����ްЦ��ް����ް��ް����ް����ް����ް����ް�®�ް�®�ް�î�ް�î�ް�Į�ް�Į�ް�Ӯ�ް�خ�ް�خ�ް�ٮ�ް�ٮ�ް�ڮ�ް�ڮ�ް���ް���ް���ް����ް����ް����ް����ް����ްІ��ް����ް��ް����ް��ް����ް��ް����ް��ް����ް��ް��ް����ް�ů�ް�Ư�ް�Ư�ް�ǯ�ް�ǯ�ް�ȯ�ް�ȯ�ް�ɯ�ް�ɯ�ް�ܯ�ް�ܯ�ް���ް���ް���ް���ް���ް����ް����ް����ް����ް��ް����ް��ް����ް��ް����ް����ް��ް����ް����ްЭ��ް����ްв��ްн��ް����ްо��ް�Ұ�ް�Ӱ�ް�Ӱ�ް�԰�ް�԰�ް�հ�ް�հ�ް�ְ�ް�ְ�ް�װ�ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ްЀ��ް����ްЁ��ް����ްЂ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ű�ް�ű�ް�Ʊ�ް�Ʊ�ް�Ǳ�ް�ֱ�ް�ֱ�ް�ױ�ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ްА��ް����ް����ް��ް����ްЭ��ް����ްЮ��ް����ްЯ��ް����ް��ް����ް�²�ް�²�ް�ò�ް�ò�ް�ݲ�ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЫ��ް����ްЬ��ް����ްЭ��ް����ްЮ��ް��ް����ް����ް����ް����ް�³�ް�³�ް�ӳ�ް�ӳ�ް�Գ�ް�Գ�ް�ճ�ް�ճ�ް�ֳ�ް���ް����ް����ް����ް����ް����ްЀ��ް����ްЁ��ް��ް����ް��ް��ް����ް��ް����ް��ް����ްи��ް����ްй��ް����ް����ް�Ҵ�ް�Ӵ�ް�մ�ް�ִ�ް�ִ�ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ްВ��ް����ް����ް��ް����ް��ް����ް��ް����ް����ްм��ް����ްн��ް�Ƶ�ް�̵�ް�ص�ް�ٵ�ް�ٵ�ް�ڵ�ް�ڵ�ް�۵�ް�۵�ް�ܵ�ް�ݵ�ް�ݵ�ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް��ް����ް��ް����ް��ްЩ��ް��ް����ް��ް�ƶ�ް�ƶ�ް�Ƕ�ް�Ƕ�ް�ȶ�ް�ն�ް�ڶ�ް�۶�ް�۶�ް����ް���ް���ް���ް���ް����ް����ް����ްЃ��ް����ްЄ��ް����ް��ް����ް��ް����ް��ް����ް��ް����ް��ް����ް��ް����ް��ް�ʷ�ް�ʷ�ް�˷�ް�˷�ް�̷�ް�̷�ް�ͷ�ް���ް���ް���ް���ް����ް����ް����ްЁ��ް����ްЂ��ް����ްЃ��ް����ް����ް����ް��ް����ް��ް����ް�Ǹ�ް�Ը�ް�Ը�ް�ո�ް�ո�ް�ָ�ް�ָ�ް�׸�ް���ް���ް���ް����ް����ް����ް����ްЋ��ް����ްЎ��ް����ް����ް��ް����ްЦ��ް����ްЧ��ް����ްШ��ް����ް����ް����ް�¹�ް�¹�ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް��ް����ް����ްЮ��ް����ްЯ��ް��ް�Ǻ�ް�к�ް�к�ް�ܺ�ް�ܺ�ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ްА��ް����ްБ��ް��ް����ް��ް����ް��ް��ް����ް��ް����ް�Ż�ް�ϻ�ް�ϻ�ް�л�ް�л�ް�ѻ�ް���ް���ް���ް���ް���ް����ްЁ��ް����ްЄ��ް����ް��ް����ް��ް����ް��ް����ް��ް�ż�ް�Ƽ�ް�Ƽ�ް�Ǽ�ް�Ǽ�ް�Լ�ް�Լ�ް�ۼ�ް�ܼ�ް�ܼ�ް�ݼ�ް�ݼ�ް�޼�ް�߼�ް����ް����ް����ް����ް����ް����ް����ް����ްЍ��ް����ް����ްЗ��ް����ް��ް����ް�ɽ�ް�ɽ�ް�ʽ�ް�ӽ�ް�ֽ�ް�ֽ�ް�׽�ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ްЎ��ް����ްЧ��ް��ް����ްб��ް����ްв��ް�ž�ް�ʾ�ް�ʾ�ް�߾�ް�߾�ް���ް���ް����ް����ް����ް����ް����ް����ް����ްЏ��ް����ްА��ް����ް����ް��ްШ��ް����ްЩ��ް��ް����ް����ް�Ϳ�ް�Ϳ�ް�ο�ް�ٿ�ް�ڿ�ް�ڿ�ް����ް���ް���ް���ް���ް���ް���ް���ް���ްЉ��ް����ްЊ��ް����ްЋ��ްИ��ް���ް����ް���ް����ް���ް����ްк��ް����ްл��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЎ��ް����ްЏ��ްЗ��ް����ް����ްо��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްШ��ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЉ��ް����ްЊ��ް����ްЋ��ް����ްС��ްЭ��ް����ް����ްи��ް����ްй��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЗ��ް����ްК��ް����ް���ް����ް���ް����ް����ްй��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ްН��ް����ް���ްк��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ްП��ް���ް����ް���ް���ް����ްи��ް����ްй��ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްГ��ް����ްД��ް����ްЕ��ް����ް���ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЀ��ްЎ��ް����ްЏ��ް����ްА��ް���ް����ްЪ��ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްШ��ް����ްй��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЅ��ް����ްІ��ް����ް���ް����ް���ް����ް���ް����ް����ް���ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް���ް����ް���ް����ް����ްк��ް����ްл��ް����ްм��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЏ��ް����ް���ް����ް���ް����ް���ް����ްд��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްБ��ް���ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްІ��ް����ްН��ް����ްО��ްЬ��ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްІ��ް����ްЇ��ް����ްЈ��ްД��ް����ްЕ��ް����ްЖ��ް����ްЗ��ް����ްа��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЌ��ް����ް����ް����ްП��ް����ް����ް���ްб��ް����ްд��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް���ް����ް���ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ްП��ް����ްР��ް����ްа��ްж��ް����ްо��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ްй��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްО��ް����ްП��ް����ްб��ްо��ް����ްп��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްВ��ް����ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްА��ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЂ��ް����ް����ްК��ް����ްЛ��ް����ް����ްд��ް����ްе��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЃ��ް����ް����ްХ��ް����ް����ްи��ް����ްй��ް����ްк��ް����ްл��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЉ��ް����ް����ް����ްн��ް����ްо��ް���ް���ް���ް���ް����ް����ް��ް����ް��ް����ްЖ��ް����ް��ް����ް��ް����ް��ް����ް��ް����ް��ް�с�ް�ҁ�ް�ҁ�ް���ް���ް����ް����ް����ް����ްЄ��ް��ް����ް��ް����ް��ް�ł�ް�ł�ް�ʂ�ް�ʂ�ް�˂�ް����ް���ް���ް���ް���ް���ް����ް����ް����ް����ްУ��ް����ްЧ��ް����ް��ް�Ń�ް�Ӄ�ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ްЛ��ް����ްЦ��ް����ްг��ް����ްд��ް����ް��ް�ф�ް�҄�ް�҄�ް�ӄ�ް�ӄ�ް���ް���ް���ް���ް���ް����ް��ް����ް��ްЭ��ް����ްЮ��ް����ްЯ��ް�ą�ް�ą�ް�ԅ�ް�ԅ�ް�Յ�ް�ۅ�ް���ް���ް����ް����ް����ް��ް����ް��ް��ް����ް��ް����ް����ް����ް��ް��ް�ц�ް�ц�ް���ް���ް���ް���ް���ް���ް���ް���ް����ްБ��ް����ްВ��ް����ްО��ްЯ��ް����ްа��ް����ްн��ް����ް�ԇ�ް�Շ�ް�݇�ް�އ�ް�އ�ް���ް���ް���ް����ް����ް����ްЛ��ް����ް��ް����ް��ް����ް��ް�ш�ް�و�ް�و�ް���ް��ۙ�ް����ް����ް����ް����ް�ʚ�ްЍ��ް����ް����ް����ް����ް�Ҧ�ް����ްК��ް�ګ�ް���ް����ް�ƭ�ް�ϭ�ް���ް����ް����ް����ް����ް���ް��ް�Ư�ް�ܯ�ް���ް����ް���ް����ް����ް��ް����ް�ݲ�ް����ް�ӳ�ް����ް��ް��ް����ް�Ӵ�ް���ް����ް��ް����ް����ް����ް����ް��ް����ް���ް����ް����ް����ް����ް����ް����ް�ܺ�ް���ް����ް���ް��ް���ް���ް����ް����ް����ްЧ��ް�߾�ް�߾�ް�ڿ�ް����ް���ް����ް����ްЗ��ް����ް����ް����ްи��ް����ްЗ��ްй��ް����ް����ް����ް����ް���ް����ްП��ް����ްи��ްй��ް����ް����ް����ް����ް����ް���ް���ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ްО��ް����ްа��ް����ްб��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް���ް���ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްа��ް����ް����ްб��ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЉ��ް����ް���ް����ް����ްЄ��ް��ް�ł�ް����ް��ް����ް����ް���ް�ą�ް���ް�ц�ް���ް���ް����ް�އ�ް����ް�و�ް���ް�ș�ްi�ș�ް�ș�ްr�ə�ް�ə�ްi�ə�ް�ə�ްd�ʙ�ް�ʙ�ްe����ް�ۙ�ްe�ۙ�ް�ۙ�ްa�ܙ�ް�ۙ�ްi���ް�ۙ�ްl���ް�ۙ�ްp���ް�ܙ�ްn���ް���ްr���ް���ްi����ް���ްo���ް���ްr���ް���ްe���ް���ްl����ް����ްd����ް����ްe����ް����ްk����ް����ްr����ް����ްe���ް����ްa����ް����ްa����ް����ްb���ް����ްa���ް����ްc����ް����ްe����ް����ްiଦ�ް����ްn����ް����ްs�ɚ�ް����ްo����ް����ްn����ް����ްq����ް�ɚ�ްe����ް�ʚ�ްe�ɚ�ް�ʚ�ްi����ްЋ��ްeЌ��ްЌ��ްq����ްЍ��ްc���ްЍ��ްdЋ��ްЍ��ްqЙ��ްЍ��ްr�ș�ްГ��ްi����ްЕ��ްnЍ��ްЙ��ްu����ް����ްa���ް����ްb�Š�ް����ްc����ް����ްd�ۙ�ް����ްe����ް����ްi�Ѧ�ް����ްkГ��ް����ްl����ް����ްm���ް����ްn����ް����ްp��ް����ްqж��ް����ްr���ް����ްs�ƭ�ް����ްt�߭�ް����ްu����ް���ްb�ʚ�ް���ްn�Ġ�ް����ްtГ��ް����ްr����ް����ްe���ް����ްo����ް����ްa����ް����ްb����ް����ްc����ް����ްd���ް����ްe���ް����ްf����ް����ްg����ް����ްh����ް����ްiП��ް����ްj����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްo����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްv����ް����ްw���ް����ްx�ш�ް����ްy�و�ް����ްz���ް����ްb����ް����ްf����ް����ްh����ް����ްi����ް����ްk����ް����ްl����ް����ްn����ް����ްu���ް����ްu����ް����ްu���ް����ްoЕ��ް����ްo�ɠ�ް�Ġ�ްl����ް�Ġ�ްp����ް�Ġ�ްq����ް�Š�ްa�̠�ް�ɠ�ްn�Ԡ�ް�̠�ްs�Ϡ�ް�Ϡ�ްt����ް�Ѡ�ްb����ް�Ԡ�ްa�Ѡ�ް���ްq���ް���ްo���ް���ްn����ް���ްn���ް���ްu����ް���ްg���ް���ްe���ް���ްk���ް���ްa����ް����ްc���ް����ްl���ް����ްr����ްଦ�ްn����ް����ްg����ް����ްe຦�ް຦�ްs����ް����ްs໦�ް໦�ްa����ް�Ѧ�ްn�Ҧ�ް�Ҧ�ްg�Ҧ�ް�Ҧ�ްd�Ӧ�ް�Ҧ�ްe�ߦ�ް�Ҧ�ްi���ް�Ҧ�ްl����ް�Ӧ�ްe�Ӧ�ް�Ӧ�ްp�Ԧ�ް�Ԧ�ްr�Ԧ�ް�Ԧ�ްe�ə�ް�ߦ�ްr���ް���ްn���ް���ްg���ް���ްe����ް���ްs���ް����ްe����ް����ްq����ް����ްu����ް����ްz����ް����ްeЃ��ްЃ��ްr����ް����ްi���ްГ��ްa����ް����ްe����ް����ްeК��ް����ްo�ګ�ްК��ްa���ްК��ްd�ʙ�ްК��ްe����ްК��ްs����ް����ްrП��ްП��ްl����ް����ްoР��ްР��ްl�ʙ�ް����ްt�ʙ�ް�ګ�ްe�۫�ް�۫�ްr�ə�ް���ްe���ް���ްn���ް���ްt���ް���ްn���ް���ްr���ް���ްe���ް���ްs���ް���ްs���ް���ްr���ް���ްt���ް���ްi���ް����ްe����ް����ްs����ް����ްs����ް����ްl����ް����ްe����ް����ްp����ް����ްr����ް����ްe���ް��ްr����ް����ްe��ް��ްi����ް��ްp����ް��ްt���ް����ްn��ް��ްg����ް����ްt���ް����ްrТ��ްТ��ްe����ް����ްsУ��ްУ��ްt����ް����ްs����ްж��ްu����ް����ްcз��ް����ްp����ް����ްr����ް����ްt���ްз��ްo����ް����ްn����ް����ްr����ް����ްe�¬�ް�¬�ްa�¬�ް�¬�ްn�ʙ�ް�Ҭ�ްn�Ҭ�ް�Ҭ�ްg�Ӭ�ް�Ӭ�ްe�Ӭ�ް�Ӭ�ްr���ް���ްi���ް���ްp���ް���ްr���ް���ްe���ް���ްiଦ�ް���ްi����ް����ްa����ް����ްe����ް����ްi����ް����ްn����ް����ްs����ް����ްn����ް����ްe����ް����ްr����ް����ްm����ް����ްe����ް����ްn�Ϡ�ް����ްa����ް����ްb���ް����ްn����ް����ްn����ް����ްg����ް����ްl����ް����ްn����ް����ްe����ް����ްs���ް����ްi����ް����ްoо��ް஭�ްr����ް����ްe௭�ް௭�ްa����ް௭�ްc���ް௭�ްt�ֱ�ް����ްb���ް����ްs��ް��ްs�ɚ�ް�ƭ�ްk�ƭ�ް�ƭ�ްl���ް�ƭ�ްt�ϭ�ް�ƭ�ްt�ǭ�ް�ǭ�ްq����ް�ϭ�ްi�ϭ�ް�ϭ�ްn�Э�ް�Э�ްg�Э�ް�Э�ްd���ް�߭�ްi���ް�߭�ްz���ް���ްa����ް���ްd�ʙ�ް���ްo���ް���ްn���ް���ްa�Ѡ�ް���ްe����ް���ްu���ް����ްc����ް����ްo�¬�ް����ްdЊ��ްЊ��ްe����ް����ްtЋ��ްЋ��ްi����ް����ްeИ��ްИ��ްr����ް����ްlЙ��ްЙ��ްo����ް����ްaХ��ް����ްm����ް����ްt���ްХ��ްn����ް����ްlЦ��ްЦ��ްo���ް����ްe��ް��ްn����ް����ްt����ް����ްa����ް����ްb���ް����ްc���ް����ްe����ް����ްi�ů�ް����ްk�ܯ�ް����ްl���ް����ްm��ް����ްn�Ұ�ް����ްp஭�ް����ްq���ް����ްs����ް����ްtЭ��ް����ްu�ݲ�ް����ްb����ް����ްn����ް����ްc�®�ް����ްp�Ӯ�ް����ްt�خ�ް�®�ްo�®�ް�®�ްn�î�ް�î�ްt�î�ް�î�ްi�Į�ް�Į�ްo�Į�ް�Į�ްn����ް�Ӯ�ްr�ʙ�ް�خ�ްi�خ�ް�خ�ްo�ٮ�ް�ٮ�ްq�ٮ�ް�ٮ�ްr�ڮ�ް�ڮ�ްt�ڮ�ް�ڮ�ްi����ް���ްo���ް���ްn���ް���ްa�ɠ�ް���ްc����ް���ްd�ʙ�ް���ްe����ް���ްp�Ӯ�ް���ްs����ް���ްt��ް����ްo����ް����ްn����ް����ްq����ް����ްu�ə�ް����ްrІ��ްІ��ްt����ް����ްi�ɚ�ް��ްi����ް����ްo��ް��ްn����ް����ްi��ް��ްp�Ӯ�ް����ްa���ް����ްr��ް��ްa����ް��ްl��ް����ްn��ް��ްt����ް��ްe����ް����ްaР��ް�ů�ްn�Ư�ް�Ư�ްg�Ư�ް�Ư�ްn�ǯ�ް�ǯ�ްe�ǯ�ް�ǯ�ްs�ȯ�ް�ȯ�ްs�ȯ�ް�ȯ�ްn�ɯ�ް�ɯ�ްa�ɯ�ް�ɯ�ްa���ް�ܯ�ްa�ܯ�ް�ܯ�ްm����ް���ްe���ް���ްo����ް���ްa���ް���ްc���ް���ްq���ް���ްsУ��ް���ްb���ް���ްc�Į�ް���ްu�ɯ�ް����ްa����ް����ްp�Ӯ�ް����ްs����ް����ްn����ް����ްe����ް����ްr���ް��ްe����ް����ްn��ް��ްt����ް����ްc��ް����ްd����ް����ްe����ް����ްl����ް����ްtн��ް��ްo����ް����ްn���ް����ްr��ް��ްl����ް����ްo���ް����ްoЭ��ްЭ��ްd����ްЭ��ްi����ް����ްnв��ްв��ްg���ްн��ްi����ް����ްaо��ްо��ްn�̠�ް�Ұ�ްe�Ӱ�ް�Ӱ�ްs�Ӱ�ް�Ӱ�ްs�԰�ް�԰�ްc�԰�ް�԰�ްi�Ҭ�ް�԰�ްm����ް�԰�ްo�հ�ް�հ�ްn�հ�ް�հ�ްt�ְ�ް�ְ�ްi�ְ�ް�ְ�ްo�װ�ް�װ�ްn����ް���ްe���ް���ްn���ް���ްt���ް���ްt���ް���ްs���ް���ްt���ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްe����ް����ްlЀ��ް����ްrЋ��ް����ްs����ް����ްt�ű�ް����ްe�Ӯ�ްЀ��ްo����ް����ްnЁ��ްЁ��ްe����ް����ްsЂ��ްЂ��ްs�ə�ް����ްe����ް����ްn����ް����ްt����ް����ްt����ް����ްt����ް����ްs����ް����ްt��ް����ްt����ް����ްa����ް����ްn����ް����ްq�ʙ�ް�ű�ްi�ű�ް�ű�ްo�Ʊ�ް�Ʊ�ްn�Ʊ�ް�Ʊ�ްa�Ǳ�ް�Ǳ�ްb�ə�ް�ֱ�ްi�ֱ�ް�ֱ�ްo�ױ�ް�ױ�ްn�ɯ�ް���ްu���ް���ްk���ް���ްa���ް���ްs���ް���ްt���ް���ްt���ް����ްe����ް����ްs�Ԡ�ް����ްt����ް����ްr����ް����ްi���ް����ްc����ް����ްe���ް����ްiА��ް����ްk����ްА��ްo����ް����ްg���ް����ްa��ް��ްa����ް����ްb����ްЭ��ްi����ް����ްaЮ��ް����ްe����ް����ްo����ް����ްt���ްЮ��ްb����ް����ްaЯ��ްЯ��ްb���ް����ްr��ް��ްs���ް����ްn�²�ް�²�ްe�²�ް�²�ްq���ް�²�ްr�ò�ް�ò�ްt�ò�ް�ò�ްi���ް�ݲ�ްa�Ѡ�ް����ްa����ް����ްa����ް����ްb����ް����ްd����ް����ްe����ް����ްp����ް����ްr����ް����ްe����ް����ްd����ް����ްhЫ��ް����ްn��ް����ްo����ް����ްr�Ը�ް����ްu�̠�ް����ްn����ް����ްm����ް����ްe����ް����ްn����ް����ްt����ް����ްs����ް����ްc����ް����ްo����ް����ްn����ް����ްn����ް����ްe����ް����ްs����ްЫ��ްa����ް����ްtЬ��ްЬ��ްi����ް����ްsЭ��ްЭ��ްt����ް����ްtЮ��ްЮ��ްi�̠�ް��ްc����ް��ްo�ӳ�ް��ްu�ɚ�ް����ްo����ް����ްn����ް����ްl����ް����ްe�³�ް�³�ްs�³�ް�³�ްt�ɚ�ް�ӳ�ްa�ӳ�ް�ӳ�ްb�Գ�ް�ӳ�ްn���ް�Գ�ްc�Գ�ް�Գ�ްo�ճ�ް�ճ�ްn�ճ�ް�ճ�ްl�ֳ�ް�ֳ�ްo�ɯ�ް���ްs����ް����ްd����ް����ްe����ް����ްn��ް����ްt����ް����ްv����ް����ްx�Ǹ�ް����ްn����ް����ްe��ް����ްn����ް����ްrЀ��ްЀ��ްi����ް����ްaЁ��ްЁ��ްb��ް��ްa����ް��ްc����ް��ްd�Ҵ�ް��ްe���ް��ްi����ް��ްk����ް��ްl����ް��ްm�ص�ް��ްn����ް��ްp����ް��ްq��ް��ްr����ް��ްs����ް��ްt���ް��ްu�ܯ�ް����ްb��ް����ްn��ް��ްn����ް��ްi����ް��ްt����ް����ްn��ް��ްg��ް����ްi��ް��ްs����ް����ްoи��ްи��ްn����ް����ްaй��ް����ްi����ް����ްr���ްй��ްn���ް����ްn����ް����ްgР��ް�Ҵ�ްe�Ӵ�ް�Ӵ�ްd�ʙ�ް�Ӵ�ްm�մ�ް�Ӵ�ްt���ް�մ�ްe�ִ�ް�ִ�ްn�ִ�ް�ִ�ްt�Ԡ�ް���ްw���ް���ްr���ް���ްs���ް���ްt����ް���ްr���ް���ްsР��ް���ްu����ް����ްi����ް����ްg����ް����ްnВ��ް����ްi����ް����ްo����ް����ްn����ް����ްl����ް����ްo���ްВ��ްg����ް����ްp����ް����ްa��ް����ްl��ް��ްd����ް����ްe����ް��ްb����ް����ްi��ް��ްn����ް����ްg�ɚ�ް����ްoм��ްм��ްa����ްм��ްj����ްм��ްq�Ƶ�ްм��ްs�̵�ް����ްnн��ްн��ްeР��ް�Ƶ�ްuР��ް�̵�ްu�ɚ�ް�ص�ްe�ٵ�ް�ٵ�ްn�ٵ�ް�ٵ�ްt�ڵ�ް�ڵ�ްm�ڵ�ް�ڵ�ްe�۵�ް�۵�ްn�۵�ް�۵�ްt�ܵ�ް�ܵ�ްp�ݵ�ް�ݵ�ްr�ݵ�ް�ݵ�ްe���ް����ްe����ް����ްs����ް����ްs����ް����ްc����ް����ްo����ް����ްn����ް����ްi����ް����ްn����ް����ްg�ʙ�ް����ްr����ް����ްe����ް����ްl����ް����ްu��ް��ްe����ް����ްr�ɯ�ް��ްk����ް��ްuЩ��ް����ްu��ް��ްa�ə�ްЩ��ްa����ްЩ��ްc�ְ�ްЩ��ްd��ްЩ��ްi�ƶ�ްЩ��ްl�ն�ްЩ��ްq�ڶ�ް��ްe����ް����ްk��ް��ްa���ް�ƶ�ްn�ƶ�ް�ƶ�ްg�Ƕ�ް�Ƕ�ްd�Ƕ�ް�Ƕ�ްe�ȶ�ް�ȶ�ްl���ް�ն�ްrଦ�ް�ڶ�ްu�۶�ް�۶�ްl�۶�ް�۶�ްe�Ԡ�ް����ްi���ް����ްm��ް����ްu����ް���ްa���ް���ްl����ް���ްrЃ��ް���ްs��ް���ްn���ް���ްn���ް���ްs����ް����ްo����ް����ްt����ް����ްi�ʙ�ްЃ��ްi����ް����ްiЄ��ްЄ��ްn����ް����ްg�̠�ް��ްn����ް����ްe�ʙ�ް��ްe����ް����ްk��ް��ްa�Ԡ�ް����ްm��ް����ްt��ް��ްe����ް����ްn��ް��ްt����ް����ްy���ް��ްd����ް��ްi�ʷ�ް��ްt���ް����ްe��ް��ްaй��ް�ʷ�ްn�ʷ�ް�ʷ�ްg�˷�ް�˷�ްt�˷�ް�˷�ްi�̷�ް�̷�ްo�̷�ް�̷�ްw�ͷ�ް�ͷ�ްv����ް���ްi���ް���ްo���ް���ްn�ə�ް���ްi����ް����ްa����ް����ްoЁ��ް����ްn����ް����ްc���ް����ްm����ްЁ��ްn����ް����ްcЂ��ް����ްi���ްЂ��ްo����ް����ްnЃ��ްЃ��ްl����ް����ްo���ް����ްn�ֱ�ް����ްe��ް��ްs����ް����ްs��ް��ްr����ް����ްi�ɯ�ް�Ǹ�ްn�ɚ�ް�Ը�ްe�Ը�ް�Ը�ްd�ո�ް�ո�ްe�ո�ް�ո�ްc�ָ�ް�ָ�ްo�ָ�ް�ָ�ްn�׸�ް�׸�ްu��ް���ްe���ް���ްj�ɽ�ް���ްo�ӽ�ް���ްy�ֽ�ް���ްa���ް���ްcЋ��ް���ްdЦ��ް���ްe����ް���ްiଦ�ް���ްk���ް���ްl����ް���ްm���ް���ްn����ް���ްp���ް���ްq����ް���ްr�ə�ް���ްs��ް���ްt�ż�ް���ްv���ް���ްb����ް���ްn����ް����ްa���ް����ްk���ް����ްp����ް����ްr����ް����ްe����ް����ްa����ްЋ��ްn����ްЋ��ްo����ް����ްnЎ��ްЎ��ްe����ްЎ��ްq����ް����ްu���ް����ްu��ް��ްa����ް����ްb����ްЦ��ްe����ްЦ��ްiଦ�ް����ްeЧ��ް����ްn����ްЧ��ްr����ް����ްpШ��ްШ��ްr����ް����ްa����ް����ްm����ް����ްr����ް����ްs���ް����ްu����ް����ްb����ް����ްp�¹�ް�¹�ްr�¹�ް�¹�ްe�̠�ް���ްa���ް���ްl���ް���ްe���ް���ްi���ް���ްn���ް���ްg�Ԡ�ް����ްe����ް����ްl����ް����ްs����ް����ްe����ް����ްl����ް����ްm�ɯ�ް����ްa���ް����ްi����ް����ްo����ް����ްn����ް��ްa����ް��ްp�Ǻ�ް����ްc�ְ�ް����ްe����ް����ްkЮ��ް����ްt��ް����ްd����ްЮ��ްa����ް����ްkЯ��ްЯ��ްa���ް��ްi����ް�Ǻ�ްa�Ӯ�ް�к�ްe�к�ް�к�ްo�ܺ�ް�к�ްs�ʙ�ް�к�ްd�ʙ�ް�к�ްm����ް�к�ްt����ް�ܺ�ްe�ܺ�ް�ܺ�ްr���ް�ܺ�ްr����ް���ްe���ް���ްz����ް���ްn���ް���ްt���ް���ްm����ް���ްr����ް����ްi����ް����ްa����ް����ްs����ް����ްt����ް����ްk����ް����ްa����ްА��ްe����ް����ްlБ��ްБ��ްe���ް��ްr����ް��ްs�Ż�ް����ްn��ް����ްp�Ӯ�ް����ްs��ް��ްe����ް��ްs����ް����ްs��ް��ްs���ް��ްt����ް����ްa��ް��ްn����ް����ްf����ް�Ż�ްa���ް�Ż�ްu����ް�ϻ�ްn�ϻ�ް�ϻ�ްg�л�ް�л�ްq�л�ް�л�ްc�ѻ�ް�ѻ�ްc����ް���ްr���ް���ްe���ް���ްa���ް���ްd�ʙ�ް���ްnЁ��ް���ްb���ް���ްd�Ԧ�ް����ްuЁ��ްЁ��ްl����ްЁ��ްn����ް����ްeЄ��ްЄ��ްs����ް����ްs�̠�ް��ްn����ް��ްs���ް��ްt��ް����ްe��ް��ްs����ް����ްs����ް��ްaЯ��ް��ްc���ް��ްl�¹�ް��ްs����ް����ްo��ް��ްe����ް�ż�ްd�Ƽ�ް�ż�ްi�Լ�ް�Ƽ�ްi�Ƽ�ް�Ƽ�ްi�Ǽ�ް�Ǽ�ްn�Ǽ�ް�Ǽ�ްg���ް�Լ�ްe�Լ�ް�Լ�ްi�ۼ�ް�Լ�ްm����ް�Լ�ްo����ް�Լ�ްu����ް�Լ�ްr��ް�ۼ�ްt�ܼ�ް�ܼ�ްo�ܼ�ް�ܼ�ްn�ݼ�ް�ݼ�ްn�ݼ�ް�ݼ�ްe�޼�ް�޼�ްs�߼�ް�߼�ްs���ް����ްn����ް����ްc���ް����ްd����ް����ްlЍ��ް����ްu����ް����ްe����ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްs���ްЍ��ްo����ް����ްt�ə�ް����ްkЗ��ްЗ��ްa����ް����ްp��ް��ްr����ް����ްe����ް�ɽ�ްu�ɽ�ް�ɽ�ްe�ʽ�ް�ʽ�ްr�ɚ�ް�ӽ�ްh����ް�ֽ�ްd�ֽ�ް�ֽ�ްd�׽�ް�׽�ްe����ް���ްa���ް���ްc����ް���ްd�ʙ�ް���ްeЧ��ް���ްg����ް���ްi�ž�ް���ްk�߾�ް���ްl����ް���ްm��ް���ްn�Ϳ�ް���ްp����ް���ްqЉ��ް���ްr���ް���ްs����ް���ްt����ް���ްu����ް���ްw����ް���ްy���ް���ްb���ް���ްn����ް���ްn���ް���ްe���ް���ްs����ް����ްs����ް����ްd����ް����ްp�Ӯ�ް����ްr���ް����ްo����ް����ްn����ް����ްd���ް����ްi����ް����ްs����ް����ްnЎ��ްЎ��ްg���ް����ްt����ްЧ��ްd���ްЧ��ްr��ް��ްc���ް��ްi����ް����ްnб��ްб��ްe����ް����ްsв��ްв��ްs���ް�ž�ްa����ް�ž�ްgଦ�ް�ž�ްn�ʾ�ް�ʾ�ްg�ʾ�ް�ʾ�ްa�Ѡ�ް�ʾ�ްc���ް�ʾ�ްm����ް�߾�ްa�߾�ް�߾�ްo����ް�߾�ްa���ް�߾�ްd�ʙ�ް�߾�ްi��ް���ްn���ް���ްd�۶�ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްl����ް����ްe����ް����ްeЏ��ް����ްoШ��ް����ްs����ްЏ��ްl����ްЏ��ްn����ްЏ��ްs�Ϡ�ް����ްeА��ްА��ްs����ް����ްt���ް����ްe��ް��ްs����ްШ��ްa����ް����ްnЩ��ްЩ��ްq����ް��ްe����ް��ްn�Ϡ�ް����ްn����ް����ްt�ə�ް�Ϳ�ްe�Ϳ�ް�Ϳ�ްs�ٿ�ް�Ϳ�ްs�ο�ް�ο�ްs�ș�ް�ٿ�ްs�ڿ�ް�ڿ�ްa�ڿ�ް�ڿ�ްr���ް�ڿ�ްb����ް����ްf�ʙ�ް����ްr���ް���ްe���ް���ްt���ް���ްi���ް���ްo���ް���ްn���ް���ްi���ް���ްn���ް���ްg����ްЉ��ްu����ްЉ��ްyИ��ް����ްcЊ��ްЊ��ްo����ް����ްnЋ��ްЋ��ްr�ò�ްИ��ްf����ް���ްa����ް���ްcк��ް���ްd����ް���ްe����ް���ްi����ް���ްk����ް���ްl����ް���ްm����ް���ްn����ް���ްoС��ް���ްpЭ��ް���ްq����ް���ްr����ް���ްs����ް���ްt����ް���ްu���ް���ްx����ް����ްb���ް����ްn���ް���ްl����ް����ްo���ް���ްq����ް����ްu����ްк��ްn����ްк��ްo����ްк��ްt���ް����ްoл��ްл��ްn����ް����ްn����ް����ްd�ʙ�ް����ްk���ް����ްt����ް����ްc����ް����ްe����ް����ްo����ް����ްe����ް����ްm����ް����ްe����ް����ްn����ް����ްt����ް����ްl����ް����ްo����ް����ްc����ް����ްt���ް����ްo���ް����ްn��ް����ްe����ް����ްl�ʙ�ް����ްnЎ��ް����ްrЗ��ް����ްs���ް����ްt���ް����ްu�ɯ�ްЎ��ްe����ް����ްsЏ��ްЏ��ްt���ްЗ��ްk����ްЗ��ްp�Ӯ�ްЗ��ްt���ް����ްa���ް����ްk����ް����ްnо��ް����ްo����ްо��ްe����ްо��ްg����ް����ްc����ް����ްs�ִ�ް����ްo����ް����ްp����ް����ްn�Ӯ�ް����ްe����ް����ްr����ް����ްa����ް����ްe���ް����ްk����ް����ްm����ް����ްr����ް����ްt���ް����ްa����ް����ްe����ް����ްn����ް����ްt����ް����ްd����ް����ްt���ް����ްe�ɯ�ް����ްi����ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްeШ��ް����ްo����ްШ��ްs����ްШ��ްt�ò�ް����ްs����ް����ްt����ް����ްm���ް���ްe����ް����ްn���ް���ްt����ް����ްn����ް����ްa����ް����ްt����ް����ްb����ް����ްs����ް����ްt���ް����ްi����ް����ްd�ʙ�ް����ްe����ް����ްn����ް����ްt����ް����ްi����ް����ްn����ް����ްg�Ӧ�ް����ްe����ް����ްi����ް����ްpЉ��ް����ްs����ް����ްs����ް����ްa����ްЉ��ްi����ް����ްmЊ��ްЊ��ްe����ް����ްnЋ��ްЋ��ްt����ް����ްk����ްС��ްb����ްС��ްm����ްС��ްn���ްЭ��ްr����ް����ްe����ް����ްy�̠�ް����ްuи��ްи��ްd����ްи��ްe����ްи��ްl����ްи��ްn���ްи��ްs����ް����ްeй��ްй��ްc����ް����ްi����ް����ްk����ް����ްm����ް����ްn����ް����ްa����ް����ްl����ް����ްe����ް����ްe����ް����ްs����ް����ްs����ް����ްt����ް����ްi����ް����ްe����ް����ްtЗ��ް����ްq����ްЗ��ްa�Ѡ�ްЗ��ްp����ްЗ��ްu����ް����ްrК��ްК��ްe����ް����ްi���ް���ްe����ް���ްo����ް���ްp�Ӯ�ް���ްs����ް����ްr���ް���ްe����ް����ްr���ް����ްnй��ްй��ްcз��ްй��ްe����ް����ްj����ް����ްi���ް����ްs�Ϡ�ް����ްt����ް����ްa���ް����ްe����ް����ްh����ް����ްi����ް����ްzк��ް����ްt����ް����ްm����ް����ްe����ް����ްn����ް����ްt���ް����ްe����ް����ްm����ް����ްo���ް����ްq����ް����ްe����ް����ްn����ް���ްn����ް����ްe����ް����ްi���ް����ްrН��ް���ްg�¬�ްН��ްi����ް����ްu���ް���ްm�մ�ްк��ްi����ް����ްo�ܙ�ް����ްs����ް����ްi����ް����ްn����ް����ްg����ް����ްu����ް����ްe����ް����ްr����ް����ްe�̠�ް����ްg����ް����ްr�ʙ�ް����ްe����ް����ްq����ް����ްl����ް����ްo����ް����ްn����ް����ްe����ް����ްs����ް����ްs�ɯ�ް����ްe����ް����ްq���ް����ްtР��ް���ްu���ްП��ްe����ްП��ްf���ްП��ްg���ްП��ްn����ްП��ްr����ްП��ްt����ްП��ްz����ް���ްf����ް����ްg���ް���ްe����ް���ްn���ް����ްgи��ް����ްi����ް����ްs����ް����ްt����ްи��ްa����ްи��ްc����ްи��ްd�¹�ްи��ްe����ްи��ްiГ��ްи��ްk���ްи��ްl����ްи��ްm����ްи��ްn����ްи��ްp����ްи��ްq���ްи��ްr����ްи��ްs����ްи��ްt����ްи��ްu���ްи��ްzШ��ް����ްbй��ް����ްn����ްй��ްs����ް����ްt���ް���ްu���ް����ްo����ް����ްn����ް����ްk����ް����ްn����ް����ްs����ް����ްa����ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްt����ް����ްa����ް����ްr����ް����ްr���ް����ްe����ް����ްi����ް����ްr���ް����ްt����ް����ްl����ް����ްe�ɚ�ްГ��ްn����ްГ��ްt���ް����ްgД��ްД��ްq����ް����ްuЕ��ްЕ��ްq����ް����ްu���ް���ްo����ް����ްn���ް���ްt����ް����ްi���ް���ްo����ް����ްn���ް���ްa����ް����ްi����ް����ްt���ް����ްe����ް����ްo����ް����ްe����ް����ްi����ް����ްp����ް����ްt����ް����ްr����ް����ްn����ް����ްg����ް����ްa�ױ�ް����ްr����ް����ްe����ް����ްq����ް����ްt����ް����ްu���ް����ްi����ް����ްo����ް����ްn���ް����ްk����ް����ްnЎ��ް����ްr���ް����ްt����ް����ްa����ް����ްs����ް����ްt����ް����ްeЀ��ްЀ��ްn����ްЎ��ްe����ް����ްsЏ��ްЏ��ްs����ް����ްaА��ްА��ްb�ɚ�ް���ްiл��ް����ްiЪ��ްЪ��ްd����ް����ްe���ް���ްn����ް����ްm���ް����ްt���ް���ްk����ް���ްl����ް���ްp����ް���ްr����ް����ްeК��ް����ްr����ް����ްe����ް����ްi���ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްt����ް����ްe����ް����ްi����ް����ްr����ް����ްe����ް����ްa���ް����ްl����ް����ްq���ް����ްo����ް����ްi����ް����ްn����ް����ްg���ް���ްu����ް����ްn���ް���ްe����ް����ްs���ް���ްs����ް����ްcз��ް����ްi���ް���ްs�̠�ް���ްu���ް����ްr���ް����ްs����ް����ްt����ް����ްr���ް����ްg����ް����ްi����ް����ްs����ް����ްr����ް����ްi����ް����ްl����ް����ްo����ް����ްs���ް����ްu����ް����ްe����ް����ްn����ް����ްu����ް����ްn����ް����ްa���ް����ްi����ް����ްp����ް����ްw���ް����ްn����ް����ްg����ް����ްt����ް����ްi����ް����ްo����ް����ްn���ް����ްr����ްШ��ްo�ɚ�ް����ްiй��ްй��ްs����ް����ްk���ް����ްl����ް����ްe����ް����ްs����ް����ްl����ް����ްc���ް����ްu����ް����ްa����ް����ްn����ް����ްu����ް����ްt����ް����ްa����ް����ްdЅ��ް����ްn����ްЅ��ްe����ް����ްlІ��ް����ްq���ްІ��ްe���ް����ްa���ް����ްd���ް����ްi����ް����ްr����ް����ްu���ް����ްz����ް���ްa����ް���ްc����ް���ްd����ް���ްe����ް���ްi���ް���ްk��ް���ްl�к�ް���ްm���ް���ްn����ް���ްpН��ް���ްqЬ��ް���ްr���ް���ްs����ް���ްt����ް���ްu�ɯ�ް���ްx����ް����ްb���ް���ްm����ް����ްe���ް���ްn����ް����ްt����ް����ްo���ް���ްn����ް����ްm���ް���ްe����ް����ްn���ް���ްt����ް����ްc���ް���ްo����ް����ްe����ް����ްt����ް����ްi����ް����ްo����ް����ްnл��ް����ްa���ް����ްd����ް����ްe����ް����ްn����ް����ްp����ް����ްr����ް����ްc����ް����ްo����ް����ްn����ް����ްr����ް����ްe����ް����ްs����ް����ްs����ް����ްr����ް����ްi���ް����ްr����ް����ްe����ް����ްnб��ް����ްr���ް���ްn����ް����ްg���ް���ްe����ް���ްiଦ�ް���ްm���ް���ްt����ް���ްe����ް����ްn���ް���ްt����ް����ްk����ް����ްtк��ްк��ްi����ް����ްoл��ްл��ްn����ް����ްeм��ްм��ްr�̠�ް����ްn����ް����ްl����ް����ްr����ް����ްt����ް����ްe���ް����ްi����ް����ްi����ް����ްn����ް����ްg����ް����ްi����ް����ްo����ް����ްn����ް����ްlн��ް����ްe����ް����ްa����ް����ްd����ް����ްqЏ��ް����ްb����ް����ްe����ްЏ��ްu����ް����ްd�ʙ�ް����ްi���ް����ްl���ް����ްr����ް���ްn����ް����ްg���ް���ްx����ް����ްtР��ް���ްe���ް���ްo����ް����ްnд��ްд��ްe����ް����ްs����ް����ްz�Ϡ�ް����ްl����ް����ްn����ް����ްt���ް����ްg����ް����ްd����ް����ްe�Լ�ް����ްn����ް����ްt���ް����ްe����ް����ްa����ް����ްb���ް����ްl����ް����ްo����ް����ްe����ް����ްo����ް����ްa����ް����ްg�Ѡ�ް����ްtБ��ް����ްu���ްБ��ްhЗ��ް���ްm����ް���ްr���ް����ްl�ֳ�ް����ްn���ް���ްe����ް����ްs���ް���ްs����ް����ްi���ް���ްn����ް����ްg��ް����ްe����ް����ްm�Ϡ�ް����ްn����ް����ްt����ް����ްk����ް����ްq���ް����ްu����ް����ްa����ް����ްl����ް����ްe����ް����ްe����ް����ްs����ް����ްs����ް����ްa���ް����ްd����ް����ްe����ް����ްp����ް����ްe����ް����ްs����ް����ްs����ް����ްm����ް����ްqІ��ް����ްt���ްІ��ްu����ް����ްs���ްН��ްr����ް����ްeО��ްО��ްs����ްЬ��ްu����ް����ްq���ް����ްs�Ϡ�ް���ްi����ް����ްe���ް����ްm����ް����ްs����ް����ްt����ް���ްq����ް����ްu�Ԡ�ް����ްi����ް����ްo����ް����ްu���ް����ްm����ް����ްt����ް����ްe����ް����ްn����ް����ްt���ް����ްl����ް����ްr����ް����ްo����ް����ްt����ް����ްi����ް����ްm����ް����ްeЏ��ް����ްi����ް����ްs����ް����ްp����ް����ްr����ް����ްp���ް����ްiІ��ްІ��ްm����ްІ��ްnД��ްІ��ްo����ްІ��ްq����ްІ��ްs�ʙ�ް����ްeЇ��ްЇ��ްn����ް����ްtЈ��ްЈ��ްr����ްД��ްe����ް����ްsЕ��ްЕ��ްs����ް����ްnЖ��ްЖ��ްe����ް����ްsЗ��ްЗ��ްs��ް����ްm����ް����ްnа��ްа��ްr����ް����ްu����ް����ްm�Ѡ�ް����ްx����ް����ްa����ް����ްc����ް����ްd����ް����ްe����ް����ްl����ް����ްm����ް����ްn����ް����ްo����ް����ްt����ް����ްb����ް����ްo�Ѡ�ް����ްe����ް����ްr����ް����ްe����ް����ްn����ް����ްt����ް����ްeЌ��ް����ްi����ްЌ��ްe����ް����ްt����ް����ްd����ް����ްaП��ް����ްc����ް����ްdА��ް����ްe��ް����ްi�ϻ�ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްo����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްz��ްП��ްb����ްП��ްnб��ް����ްc���ް����ްs����ް����ްt���ް���ްc����ްб��ްd�ʙ�ްб��ްe����ްб��ްk����ްб��ްp����ްб��ްt����ް����ްrд��ްд��ްa����ްд��ްu����ް����ްa����ް����ްa�Ѡ�ް����ްe����ް����ްr����ް����ްe����ް����ްdК��ް����ްo����ް����ްn����ް����ްa����ް����ްb�ʙ�ް����ްa����ް����ްs����ް����ްe����ް����ްo����ް����ްs����ް����ްr���ް����ްu�ʙ�ް����ްa����ް����ްc����ް����ްd���ް���ްe����ް����ްm����ް����ްe����ް����ްn����ް����ްt����ް����ްl�ʙ�ް����ްr���ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްt�ɯ�ް����ްs����ް����ްl�ݵ�ް����ްiଦ�ް����ްr����ް����ްe����ް����ްs����ް����ްt����ް����ްu����ް����ްa����ް����ްe����ް����ްk���ް����ްp�Ԧ�ް����ްuР��ް����ްb����ް����ްi���ް����ްu����ް���ްa����ް���ްe����ް���ްp�Ӯ�ް����ްb���ް���ްs����ް����ްl����ް����ްr����ް����ްn����ް����ްe����ް����ްs����ް����ްsР��ް����ްa�Į�ް����ްk����ް����ްl����ް����ްq����ް����ްt����ް����ްa����ް����ްu����ް����ްa����ް����ްb���ް����ްi����ް����ްq����ް����ްn����ް����ްe����ް����ްg����ް����ްu����ް����ްs���ް����ްi����ް����ްo����ް����ްn����ް����ްl����ް����ްr����ް����ްs����ް����ްi����ް����ްaй��ް����ްe����ް����ްl����ް����ްn����ް����ްp�Ӯ�ް����ްr���ް����ްe���ް���ްs����ް����ްs����ް����ްe����ް����ްq����ް����ްu����ް����ްs��ް����ްt����ް����ްc�Į�ް����ްi����ް����ްq����ް����ްa����ް����ްc�Į�ް����ްd����ް����ްe����ް����ްi����ް����ްk����ް����ްl����ް����ްm���ް����ްn����ް����ްo����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްw����ް����ްb����ް����ްi���ް����ްn����ް����ްa����ް����ްc���ް����ްe����ް����ްk����ް����ްn����ް����ްb����ް����ްd����ް����ްe����ް����ްq����ް����ްr����ް����ްk����ް����ްa���ް����ްa����ް���ްo����ް����ްn���ް���ްn����ް����ްe���ް���ްs����ް����ްs���ް���ްl����ް����ްo�ə�ް����ްa����ް����ްc���ް����ްs����ް����ްb���ް����ްe�ߦ�ް����ްe����ް����ްe���ް����ްs����ް����ްa����ް����ްr����ް����ްs����ް����ްu���ް����ްb���ް����ްi����ް����ްk����ް����ްn����ް����ްq���ް����ްt����ް����ްa����ް����ްe����ް����ްs����ް����ްs����ް����ްs���ް����ްi����ް����ްo�Ǹ�ް���ްo�װ�ް����ްn����ް����ްx����ް����ްg����ް����ްa����ް����ްk����ް����ްl�Ԧ�ް����ްp�Ӯ�ް����ްb����ް����ްl����ް����ްn����ް����ްo�̠�ް����ްi����ް����ްa����ް����ްd����ް����ްe����ް����ްe����ް����ްo����ް����ްk����ް����ްu����ް����ްa����ް����ްu�̠�ް����ްa����ް����ްn����ް����ްs����ް����ްu���ް����ްb�̠�ް����ްe����ް����ްs����ް����ްs���ް���ްe����ް����ްn���ް���ްt����ް����ްl���ް���ްe����ް����ްa���ް����ްk���ް����ްa����ް����ްe���ް���ްs����ް����ްs���ް���ްc����ް���ްs����ް����ްo���ް����ްc����ް����ްn����ް����ްs����ް����ްt���ް����ްr����ް����ްe����ް����ްiଦ�ް����ްp�Ӯ�ް����ްq���ް����ްg����ް����ްu����ް����ްf����ް����ްt����ް����ްiз��ް����ްu����ް����ްi����ް����ްm����ް����ްr����ް����ްi����ް����ްl����ް����ްt����ް����ްo����ް����ްd���ް����ްa���ް����ްc���ް����ްi����ް����ްs����ް����ްk���ް���ްz���ް����ްo����ް����ްl����ް����ްi����ް����ްe����ް����ްl����ް����ްo����ް����ްr���ް����ްn����ް����ްl����ް����ްw���ް����ްo�ʙ�ް����ްa����ް����ްe����ް����ްn�Լ�ް����ްe����ް����ްi����ް����ްv����ް����ްi����ް����ްo����ް����ްnР��ް����ްn����ް����ްg�ə�ް����ްe����ް����ްn����ް����ްu����ް����ްk����ް����ްn����ް����ްt���ް����ްl����ް����ްo����ް����ްd���ް����ްa���ް����ްc�Ϡ�ް����ްq����ް����ްt����ް����ްx����ް���ްt����ް����ްb���ް���ްt����ް����ްi��ް����ްz�Ԡ�ް����ްa����ް����ްc����ް����ްd����ް����ްe����ް����ްg����ް����ްi����ް����ްj����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްp����ް����ްq����ް����ްr���ް����ްs����ް����ްt����ް����ްu����ް����ްb����ް����ްn����ް����ްo����ް����ްn����ް����ްa����ް����ްd����ް����ްe����ް����ްy���ް����ްb����ް����ްn����ް����ްl����ް����ްt����ް����ްe����ް����ްa����ް����ްd����ް����ްl����ް����ްn����ް����ްa�ױ�ް����ްe����ް����ްs���ް����ްc���ް����ްr���ް����ްs����ް���ްn����ް����ްm����ް����ްe����ް����ްn����ް����ްt�׸�ް����ްn����ް����ްq����ް����ްg����ް����ްa����ް����ްq����ް����ްr�ə�ް����ްt����ް����ްu���ް����ްj����ް����ްa����ް����ްa����ް����ްe����ް����ްk����ް����ްu����ް����ްn����ް����ްl����ް����ްo���ް����ްr����ް����ްe����ް����ްo���ް����ްa����ް����ްd����ް����ްe����ް����ްsР��ް����ްe����ް���ްi���ް���ްt���ް����ްe����ް����ްn����ް����ްt����ް����ްa����ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްe����ް����ްp����ް����ްs����ް����ްr����ް����ްe����ް����ްa����ް����ްk�ɯ�ް����ްe����ް����ްs����ް����ްs����ް����ްt����ް����ްc����ް����ްr����ް����ްe����ް����ްa�¬�ް����ްe����ް����ްk���ް����ްl����ް����ްs����ް����ްo����ް����ްs����ް����ްt���ް����ްt����ް����ްu���ް���ްa����ް���ްd����ް���ްs����ް���ްu���ް���ްe���ް���ްi����ް����ްc����ް����ްe����ް����ްi����ް����ްr����ް����ްw����ް����ްn����ް����ްg����ް����ްd�ݵ�ް����ްi����ް����ްtк��ް����ްm����ް����ްs����ް����ްt����ް����ްe����ް����ްn����ް����ްt����ް����ްe����ް����ްr���ް����ްt����ް����ްu����ް����ްa�Ǹ�ް����ްe����ް����ްi����ް����ްm����ް����ްs����ް����ްo����ް����ްs����ް����ްn����ް����ްn����ް����ްe����ް����ްs����ް����ްs�ʙ�ް����ްe����ް����ްn����ް����ްt����ް����ްtК��ް����ްi����ް����ްl����ް����ްn����ް����ްo����ް����ްt�ְ�ް����ްu����ް����ްe����ް����ްs����ް����ްs����ް����ްe�ɚ�ް����ްn����ް����ްa����ް����ްp�Ӯ�ް����ްt����ް����ްu����ް����ްn����ް����ްdІ��ް����ްi����ް����ްm����ް����ްe����ް����ްn����ް����ްa����ް����ްq���ް����ްu�ə�ް����ްn����ް����ްh���ް����ްm����ް����ްe����ް����ްnУ��ް���ްt����ް����ްi���ް���ްo����ް����ްn�Э�ް����ްs����ް����ްt����ް����ްt����ް����ްi���ް����ްe����ް����ްr����ް����ްt����ް����ްd�ʙ�ް����ްu����ް����ްa����ް����ްe����ް����ްf����ް����ްi����ް����ްk����ް����ްa�Ѡ�ް����ްlЙ��ް����ްp����ް����ްs����ް����ްs����ް����ްs����ް����ްi����ް����ްs����ް����ްn����ް����ްg����ް����ްtН��ް����ްa����ް����ްc����ް����ްd����ް����ްe���ް����ްi����ް����ްl����ް����ްn����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްb����ް����ްn����ް����ްa�Ѡ�ް����ްl����ް����ްrЈ��ް����ްe����ް����ްo����ް����ްd����ް����ްk����ް����ްp�Ӯ�ް����ްq����ް����ްs����ް����ްt����ް����ްu����ް����ްe����ް����ްa�Ѡ�ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްa����ް����ްs����ް����ްu����ް����ްl����ް����ްo�Ԡ�ް����ްt����ް����ްr����ް����ްp����ް����ްi�®�ް����ްd����ް����ްs���ް����ްo����ް����ްn����ް����ްa����ް����ްe�Ӯ�ް����ްu���ް����ްe����ް����ްe���ް����ްl���ް����ްm����ް����ްt����ް����ްe����ް����ްn���ް���ްa����ް���ްr����ް���ްs����ް���ްy����ް����ްn���ް����ްe����ް����ްp����ް����ްr����ް����ްr����ް����ްs����ް����ްt����ް����ްq����ް����ްu���ް����ްs�Ԡ�ް����ްu����ް����ްk����ް����ްa�ɚ�ް����ްe����ް����ްn����ް����ްg����ް����ްa����ް����ްc���ް����ްq���ް����ްs����ް����ްu���ް����ްt����ް����ްu����ް����ްd���ް����ްe����ް����ްo���ް����ްk����ް����ްm����ް����ްa����ް����ްp����ް����ްr����ް���ްs����ް����ްr����ް����ްe����ް����ްk����ް����ްp����ް����ްr����ް����ްaІ��ް����ްr����ް����ްe����ް����ްl����ް����ްc����ް����ްj���ް����ްu����ް����ްp����ް����ްr����ް����ްr����ް����ްe����ް����ްi����ް����ްr����ް����ްi����ް����ްa����ް����ްl����ް����ްn����ް����ްr����ް����ްs�Ϡ�ް����ްt���ް����ްn����ް����ްi���ް���ްa�Ѡ�ް���ްn����ް���ްi����ް����ްo���ް����ްu����ް���ްn����ް����ްk���ް���ްa�ʙ�ް����ްa�Ѡ�ް����ްlІ��ް����ްp�Ӯ�ް����ްt����ް����ްr���ް����ްu�ə�ް����ްi����ް����ްe����ް����ްk����ް����ްn����ް����ްo����ް����ްa����ް����ްp����ް����ްe����ް����ްo����ް����ްs����ް����ްz�ʙ�ް����ްn����ް����ްs����ް����ްt����ް����ްi����ް����ްa���ް����ްk����ް����ްn����ް����ްa�̵�ް����ްe���ް���ްs����ް����ްs���ް����ްc����ް����ްe����ް����ްs����ް����ްs����ް����ްl����ް����ްo����ް����ްa����ް����ްc���ް����ްl����ް����ްa����ް����ްb����ް����ްr����ް����ްb����ް����ްd����ް����ްe����ް����ްh����ް����ްr����ް����ްt���ް����ްy����ް����ްm�ʙ�ް����ްr����ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްs����ް����ްr����ް����ްe����ް����ްl����ް����ްo����ް����ްa����ް����ްe���ް����ްf����ް���ްa����ް���ްc����ް���ްd����ް���ްe����ް���ްi����ް���ްk����ް���ްl����ް���ްm����ް���ްn����ް���ްp����ް���ްs����ް���ްt����ް���ްu����ް����ްb���ް����ްn����ް���ްs����ް����ްa�װ�ް����ްn����ް����ްo����ް����ްn����ް����ްe���ް����ްk����ް����ްp����ް����ްr����ް����ްt����ް����ްa���ް����ްr����ް����ްi����ް����ްi����ް����ްo����ް����ްn����ް����ްe����ް����ްe����ް����ްi����ް����ްq���ް����ްu���ް����ްr����ް����ްa���ް����ްt�ə�ް����ްn����ް����ްg�̵�ް����ްh���ް����ްk����ް����ްn����ް����ްr���ް���ްn����ް����ްe���ް���ްs����ް����ްi���ް���ްw���ް����ްn����ް����ްg����ް����ްk����ް����ްs����ް����ްn����ް����ްsР��ް����ްg���ް����ްg�Ϡ�ް����ްa����ް����ްa����ް����ްq����ް����ްb����ް����ްn����ް����ްa�Ǹ�ް����ްe����ް����ްo����ް����ްa����ް����ްt����ް����ްn����ް����ްa�ܙ�ް����ްi����ް����ްl����ް����ްo����ް����ްt����ް����ްi����ް����ްa����ް����ްd�ʙ�ް����ްr���ް����ްn����ް����ްe���ް���ްn����ް����ްt���ް���ްr����ް����ްi���ް���ްt����ް����ްi����ް����ްe����ް����ްi����ް����ްs����ް����ްs����ް����ްg����ް����ްm����ް����ްe����ް����ްn����ް����ްt����ް����ްt����ް����ްr����ް����ްe����ް����ްs����ް����ްl����ް����ްo����ް����ްa����ް����ްb����ް����ްc����ް����ްk����ް����ްs����ް����ްt����ް����ްu���ް����ްw����ް����ްo����ް����ްn����ް����ްa����ް����ްa����ް����ްa����ް����ްc����ް����ްi�ݲ�ް����ްl����ް����ްn����ް����ްn����ް����ްe����ް����ްs����ް����ްo����ް����ްnЌ��ް���ްt����ް���ްu����ް����ްo���ް���ްb���ް����ްo���ް���ްe����ް����ްr����ް����ްi����ް����ްa�Ѡ�ް����ްi����ް����ްo����ް����ްn����ް����ްg���ް����ްn����ް����ްa���ް����ްi����ް����ްp����ް����ްq����ް����ްu����ް����ްn����ް����ްg����ް����ްr����ް����ްc���ް����ްr���ް����ްn����ް����ްs���ް����ްt����ް����ްu����ް����ްe����ް����ްs����ް����ްs����ް����ްp�Ӯ�ް����ްt���ް���ްt���ް����ްi����ް����ްe����ް����ްe����ް����ްe����ް����ްf����ް����ްp����ް����ްt���ް����ްu����ް����ްs����ް����ްt����ް����ްk�Š�ް����ްu�Ƽ�ް����ްa����ް����ްc����ް����ްd����ް����ްe����ް����ްi����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްy����ް����ްb����ް����ްn����ް����ްk���ް����ްm����ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްn����ް����ްa����ް����ްe����ް����ްn����ް����ްr���ް����ްb����ް����ްo����ް����ްn����ް����ްe����ް����ްq���ް����ްt����ް����ްi����ް����ްp����ް����ްe����ް����ްp����ް����ްq���ް����ްr����ް����ްe����ް����ްt����ް����ްe����ް����ްk����ް����ްn����ް����ްr����ް����ްs����ް����ްr����ް����ްa���ް����ްa���ް����ްa����ް����ްn����ް����ްb����ް����ްc���ް����ްg����ް����ްa����ް����ްl����ް����ްb����ް����ްv����ް����ްb����ް����ްt����ް����ްi�Ԡ�ް����ްa���ް���ްl����ް���ްn����ް���ްs����ް����ްt����ް����ްa����ް����ްn���ް����ްe����ް����ްo����ް����ްs����ް����ްc��ް����ްm����ް����ްp�Ӯ�ް����ްu����ް����ްa����ް����ްk����ް����ްm����ް����ްn����ް����ްr����ް����ްb����ް����ްe����ް����ްn����ް����ްt����ް����ްi��ް����ްe����ް����ްn����ް����ްt����ް����ްc���ް����ްm����ް����ްp����ް����ްs�ə�ް����ްe����ް����ްn����ް����ްr���ް���ްeн��ް����ްe����ް����ްi����ް����ްs����ް����ްs����ް����ްa����ް����ްd�ʙ�ް����ްe�̠�ް����ްp����ް����ްs�Ϡ�ް����ްb���ް����ްnЈ��ް����ްr����ް����ްe����ް����ްn����ް����ްu����ް����ްe����ް����ްn����ް����ްe����ް����ްs����ް����ްs����ް����ްa�Ѡ�ް����ްn����ް����ްa���ް����ްi����ް����ްc�ֱ�ް����ްm����ް����ްs�Ϡ�ް����ްe����ް����ްn����ް����ްt�̠�ް����ްm���ް����ްp����ް����ްq���ް����ްr���ް����ްt����ް���ްe����ް����ްn���ް���ްt����ް����ްe����ް����ްi����ް����ްm����ް����ްn����ް����ްq����ް����ްr����ް����ްu����ް����ްn����ް����ްg�ɯ�ް����ްe����ް����ްs����ް����ްs����ް����ްc���ް����ްe���ް����ްp����ް����ްi����ް����ްi����ް����ްn����ް����ްg���ް����ްi����ް����ްc����ް����ްl����ް����ްm����ް����ްo���ް����ްo����ް����ްn����ް����ްm����ް���ްi����ް���ްn����ް����ްnଦ�ް����ްe�ə�ް����ްl����ް����ްp����ް����ްa����ް����ްb����ް����ްu�ò�ް����ްb����ް����ްe����ް����ްi����ް����ްl����ް����ްp�ʙ�ް����ްr����ް����ްe����ް����ްh���ް����ްp����ް����ްa����ް����ްc����ް����ްd����ް����ްe����ް����ްiଦ�ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްp���ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްy����ް����ްb����ް����ްl����ް����ްn����ް����ްa���ް����ްe����ް����ްr���ް����ްn����ް����ްo��ް����ްa���ް����ްi����ް����ްl����ް����ްn���ް����ްo����ް����ްe����ް���ްe����ް����ްh����ް����ްc����ް����ްo���ް���ްn����ް����ްe����ް����ްd����ް����ްk����ް����ްr����ް����ްa����ް����ްr�ڮ�ް����ްa����ް����ްe����ް����ްu����ް����ްa����ް����ްn����ް����ްr���ް����ްi����ް����ްg����ް����ްp����ް����ްe����ް����ްo���ް����ްl����ް����ްm����ް����ްt���ް����ްe����ް����ްa����ް����ްk����ް����ްe����ް����ްn����ް����ްt����ް����ްa����ް����ްb�Ԡ�ް���ްe�Լ�ް���ްl���ް���ްp���ް���ްt����ް���ްe����ް���ްr����ް����ްe���ް���ްd����ް����ްi����ް����ްo����ް����ްr���ް����ްe����ް����ްn����ް����ްk����ް����ްt����ް����ްi����ް����ްl����ް����ްp����ް����ްu����ް����ްo����ް����ްa����ް����ްr����ް����ްe����ް����ްm����ް����ްa����ް����ްe����ް����ްp���ް����ްs����ް����ްs����ް����ްk���ް����ްm����ް����ްe����ް����ްn����ް���ްp����ް����ްb���ް���ްl���ް����ްi���ް����ްk����ް����ްq����ް���ްe����ް���ްm���ް���ްq����ް���ްe����ް����ްn���ް���ްt����ް����ްm����ް����ްu����ް����ްi�Ϡ�ް����ްf����ް����ްc����ް����ްa����ް����ްl�ʙ�ް����ްs����ް����ްt����ް����ްi����ް����ްlЦ��ް����ްs����ް����ްn����ް����ްg����ް����ްr����ް����ްi����ް����ްd����ް����ްi����ް����ްo����ް����ްt����ް����ްe���ް����ްn����ް����ްs����ް����ްt����ް����ްi����ް����ްn����ް����ްg���ް����ްi����ް����ްk����ް����ްm����ް����ްa����ް����ްm����ް����ްe����ް����ްn����ް����ްt���ް����ްa����ް����ްc���ް����ްd����ް����ްe����ް����ްf����ް����ްi����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްp����ް����ްq����ް����ްr����ް����ްs���ް����ްt����ް����ްu���ް����ްb����ް����ްn����ް����ްd����ް����ްe�ʽ�ް����ްq����ް����ްu����ް����ްc����ް����ްo����ް����ްlК��ް����ްp�Ӯ�ް����ްs���ް���ްi����ް���ްn����ް���ްo����ް����ްr����ް����ްe����ް����ްd����ް����ްnЁ��ް����ްp�Ӯ�ް����ްu����ް����ްe����ް����ްm����ް����ްs����ް����ްt����ް����ްe����ް����ްn����ް����ްt����ް����ްt���ް���ްt����ް����ްe����ް����ްr����ް����ްaП��ް����ްc����ް����ްd����ް����ްe���ް����ްi����ް����ްk����ް����ްl����ް����ްmо��ް����ްn����ް����ްp����ް����ްq����ް����ްr���ް����ްs����ް����ްt����ް����ްu���ްП��ްb����ްП��ްnа��ް����ްeР��ް����ްl����ްР��ްd����ް����ްe���ްа��ްm����ްа��ްs����ްа��ްtж��ްж��ްb����ްж��ްi����ް����ްn����ް����ްoо��ްо��ްn����ް����ްu�ʙ�ް����ްo����ް����ްn����ް����ްe����ް����ްl����ް����ްn����ް����ްo����ް����ްlР��ް����ްm����ް����ްs����ް����ްs����ް����ްe����ް����ްd����ް����ްe����ް����ްs����ް����ްt����ް����ްeІ��ް����ްt���ް����ްi����ް����ްo����ް����ްv����ް���ްc���ް���ްe����ް���ްr����ް���ްs����ް����ްk���ް����ްr����ް����ްq���ް����ްs����ް����ްu����ް����ްqй��ް����ްt����ް����ްu���ްй��ްu���ް����ްn����ް����ްo����ް����ްs����ް����ްg���ް����ްn����ް����ްa���ް����ްd����ް����ްt����ް����ްa���ް����ްd�ݵ�ް����ްa����ް����ްc����ް����ްe�Ӯ�ް����ްq����ް����ްt����ް����ްo����ް����ްn���ް����ްu����ް����ްi����ް����ްo����ް����ްnЕ��ް����ްeО��ް����ްo����ްО��ްt����ް����ްzП��ްП��ްt����ް����ްe���ް����ްsб��ްб��ްk����ްо��ްe����ް����ްnп��ްп��ްt����ް����ްa����ް����ްn����ް����ްk����ް����ްe����ް����ްs����ް����ްs����ް����ްc����ް����ްo����ް����ްn����ް����ްr����ް����ްe����ް����ްc���ް����ްi����ް����ްk�Š�ް����ްn����ް����ްg�Ƽ�ް����ްu����ް����ްd����ް����ްiВ��ް����ްs���ްВ��ްn����ް����ްg����ް���ްt����ް���ްi����ް����ްf����ް����ްr����ް����ްtГ��ް����ްa����ް����ްt����ް����ްb����ް����ްn����ް����ްe����ް����ްl����ް����ްu����ް����ްo����ް����ްq����ް����ްi����ް����ްk����ް����ްn����ް����ްo����ް����ްpА��ް����ްs�ə�ް����ްa����ް����ްn����ް����ްe����ް����ްl����ް����ްe���ް����ްo����ްА��ްr����ް���ްa���ް���ްs���ް���ްi����ް���ްn����ް���ްt����ް���ްu�ə�ް����ްi����ް����ްk����ް����ްoР��ް����ްq���ް����ްr����ް����ްyР��ް����ްa����ް����ްc����ް����ްd����ް����ްe����ް����ްi����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްoи��ް����ްp��ް����ްq�ł�ް����ްr����ް����ްs����ް����ްt����ް����ްu��ް����ްw����ް����ްy�Ӄ�ް����ްb����ް����ްnЈ��ް����ްe����ް����ްr����ް����ްs���ް����ްz���ް����ްr�ճ�ް����ްm����ް����ްi����ް����ްo����ް����ްn����ް����ްl�ʙ�ް����ްe����ް����ްe����ް����ްiЂ��ްЂ��ްn����ް����ްg����ް����ްa���ް����ްe����ް����ްnК��ް����ްr����ްК��ްt����ް����ްcЛ��ްЛ��ްo����ް����ްn����ް����ްe�Ʊ�ް����ްlд��ް����ްm����ްд��ްe����ް����ްkе��ްе��ްa��ް����ްe����ް����ްn�³�ް����ްn����ް����ްe����ް����ްo����ް����ްc���ް����ްs��ް����ްu����ް����ްc���ް����ްt���ް����ްe����ް����ްn����ް����ްt����ް����ްe����ް����ްl����ް����ްm����ް����ްr����ް����ްl�¹�ް����ްeЃ��ްЃ��ްa����ް����ްb����ް����ްeХ��ް����ްo����ްХ��ްs����ް����ްs����ް����ްiଦ�ް����ްl�ʙ�ްи��ްn����ް����ްaй��ް����ްc����ް����ްd�ʙ�ް����ްeЉ��ް����ްf����ް����ްi����ް����ްkн��ް����ްl���ް����ްm��ް����ްn��ް����ްp�с�ް����ްq���ް����ްr����ް����ްs����ް����ްt����ް����ްu����ްй��ްb����ްй��ްn����ް����ްnк��ްк��ްe����ް����ްsл��ްл��ްs����ް����ްl�ʙ�ް����ްp�Ӯ�ް����ްi����ް����ްn����ް����ްg����ް����ްe����ް����ްs�Ԡ�ް����ްu����ް����ްo����ް����ްn����ް����ްa����ް����ްt����ް����ްb���ް����ްi����ް����ްo����ް����ްn����ް����ްl����ްЉ��ްr����ް����ްd�ʙ�ް����ްe����ް����ްi����ް����ްn����ް����ްr���ް����ްe����ް����ްn����ް����ްt�ʙ�ްн��ްa����ް����ްaо��ް����ްc���ް����ްl����ް����ްu�۶�ް����ްw����ްо��ްb����ް���ްd���ް���ްe����ް���ްo���ް���ްt���ް���ްk��ް���ްc���ް���ްq����ް���ްs����ް���ްt����ް����ްd����ް����ްm����ް����ްiР��ް��ްe����ް����ްn��ް��ްt����ް����ްc���ް����ްiЖ��ް����ްm����ްЖ��ްn����ް����ްg����ް��ްe����ް����ްs��ް��ްs����ް����ްk��ް����ްl����ް��ްa����ް����ްe��ް��ްp����ް����ްr��ް��ްe�ӽ�ް�с�ްr�ҁ�ް�ҁ�ްe�ҁ�ް�ҁ�ްe����ް�ҁ�ްp���ް�ҁ�ްt���ް���ްk���ް���ްu�ɯ�ް����ްe����ް����ްt����ް����ްp����ް����ްlІ��ް����ްiЄ��ްЄ��ްa����ްЄ��ްd���ްЄ��ްo����ްЄ��ްs�Ϡ�ް��ްr����ް����ްe��ް��ްt����ް����ްi��ް��ްe����ް��ްo���ް�ł�ްu�ł�ް�ł�ްd���ް�ł�ްn�ʂ�ް�ł�ްu����ް�ʂ�ްe�ʂ�ް�ʂ�ްs�˂�ް�˂�ްs��ް����ްh���ް���ްn���ް���ްl���ް���ްo���ް���ްu���ް���ްq�׸�ް����ްl����ް����ްt����ް����ްa�Ѡ�ް����ްe����ް����ްi���ް����ްr���ް����ްs���ް����ްl����ް����ްr���ް����ްiУ��ްУ��ްc���ްУ��ްi����ް����ްnЧ��ްЧ��ްg����ް����ްd�ʙ�ް����ްnЁ��ް��ްr���ް��ްt�Ń�ް�Ń�ްi�Ӧ�ް�Ӄ�ްj����ް���ްe���ް���ްr���ް���ްa���ް���ްb���ް���ްe����ް����ްa����ް����ްc����ް����ްd����ް����ްe�ф�ް����ްg���ް����ްi��ް����ްk�ą�ް����ްl�ԅ�ް����ްm����ް����ްn����ް����ްp�Ӯ�ް����ްq���ް����ްrБ��ް����ްsЯ��ް����ްt�ԇ�ް����ްu����ް����ްb���ް����ްn����ް����ްa����ް����ްd����ް����ްk���ް����ްk�Ӯ�ް����ްnЛ��ް����ްo����ްЛ��ްd�ʙ�ްЛ��ްo���ް����ްnЦ��ްЦ��ްa���ްЦ��ްr���ް����ްeг��ްг��ްa����ްг��ްc����ްг��ްr����ްг��ްs����ް����ްnд��ްд��ްq����ް����ްi��ް��ްq���ް�ф�ްa�҄�ް�ф�ްd����ް�ф�ްr���ް�ф�ްs���ް�ф�ްt��ް�҄�ްb�҄�ް�҄�ްd�ǭ�ް�҄�ްk�ӄ�ް�ӄ�ްr�ӄ�ް�ӄ�ްc����ް���ްe���ް���ްi����ް���ްm����ް���ްq����ް���ްm���ް���ްr����ް���ްr���ް���ްe���ް���ްr����ް����ްu����ް��ްi����ް����ްo����ް��ްa�¬�ް��ްnЭ��ްЭ��ްg����ް����ްnЮ��ްЮ��ްe����ް����ްsЯ��ްЯ��ްs����ް�ą�ްa�ą�ް�ą�ްe�ߦ�ް�ą�ްp����ް�ԅ�ްe�ԅ�ް�ԅ�ްo���ް�ԅ�ްe�Յ�ް�ԅ�ްl�ۅ�ް�ԅ�ްt���ް�Յ�ްr�Ԡ�ް�ۅ�ްo���ް���ްeР��ް���ްq���ް���ްs����ް���ްt�ò�ް���ްu����ް���ްu����ް����ްb����ް����ްe����ް����ްs����ް����ްn��ް��ްt����ް����ްd��ް����ްe����ް����ްkЗ��ް����ްt��ް��ްe����ް��ްi����ް����ްo��ް��ްn����ް����ްl�Ԧ�ް����ްe����ް����ްr��ް����ްs�ц�ް��ްr��ް��ްi����ް�ц�ްs�ц�ް�ц�ްa����ް���ްp���ް���ްu���ް���ްr���ް���ްe���ް���ްa�Ѡ�ް���ްm���ް���ްq����ް���ްe���ް���ްn���ް���ްt���ް���ްrЮ��ް����ްu�Э�ްБ��ްi����ް����ްaВ��ް����ްe����ް����ްkО��ް����ްl�ʙ�ްВ��ްb����ް����ްl����ްО��ްa���ްЯ��ްi����ްЯ��ްt����ް����ްnа��ްа��ްg����ް����ްr���ް����ްsн��ްн��ްt����ް����ްe����ް����ްt����ް�ԇ�ްi�Շ�ް�ԇ�ްt����ް�ԇ�ްz����ް�Շ�ްnЖ��ް�Շ�ްo�݇�ް�݇�ްn�އ�ް�އ�ްa�އ�ް�އ�ްm����ް�އ�ްq���ް�އ�ްn����ް���ްu���ް���ްv���ް���ްy����ް����ްi����ް����ްy����ް����ްaЛ��ް����ްb���ް����ްs����ްЛ��ްb����ްЛ��ްn����ް����ްa����ް����ްo��ް��ްe����ް����ްt��ް��ްi����ް����ްe��ް��ްr���ް�ш�ްoУ��ް�ш�ްv����ް�و�ްn�و�ް�و�ްv�ڮ�ް�و�ްsн��ް���ްs���ް���ްx�¹�ް ����ް(�