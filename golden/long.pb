
�����ް����ް�ǘ�ް�ʙ�ް���ް���ް���ް��ްЎ��ްЏ��ްА��ްБ��ްВ��ްЖ��ްИ��ްК��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް� �ް�à�ް�Ƞ�ް�Π�ް�Ҡ�ް�Ӡ�ް�֠�ް�נ�ް�٠�ް�ڠ�ް�ܠ�ް�ݠ�ް�ߠ�ް���ް���ް���ް����ް���ް���ް����ް����ް����ް����ް૦�ް୦�ް����ް௦�ް�Ħ�ް�Ħ�ް���ް����ް����ް����ް௧�ް����ް����ް����ް����ްྦྷ�ް�§�ް�Ƨ�ް�ǧ�ް�ȧ�ް�̧�ް�ͧ�ް�ϧ�ް�ѧ�ް�ҧ�ް�ԧ�ް�է�ް�֧�ް�ڧ�ް�ۧ�ް�ܧ�ް�ާ�ް�ߧ�ް���ް���ް���ް���ް���ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް২�ް����ް����ް����ްନ�ް����ް����ް����ް����ް����ް����ް����ް�¨�ް�Ũ�ް�̨�ް�ͨ�ް�Ψ�ް�Ѩ�ް�֨�ް�ר�ް�ۨ�ް�ݨ�ް���ް���ްФ��ް�ɬ�ް�ɬ�ް����ް����ް����ް�ǭ�ް���ް���ްе��ް����ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް�в�ް�ײ�ް���ް����ް����ް��ް�˴�ް�Ѵ�ް�Ҵ�ް���ް���ް�Զ�ް�Զ�ް���ް���ް����ް����ް�ӹ�ް�ٹ�ްЇ��ް����ްи��ް����ް�غ�ް�ٺ�ް���ް����ް��ް�Ȼ�ް�ӽ�ް����ް����ް��ް����ް�ƾ�ް���ް�ʿ�ް�ؿ�ް�ؿ�ް���ްЋ��ްВ��ް����ް����ް���ް����ްн��ް����ް����ް����ް����ް����ްЮ��ް����ް����ް����ް���ް����ް����ް����ް���ް����ް���ް����ްЩ��ް����ްЏ��ްб��ް����ް����ް����ް����ް����ް����ް����ް����ްЍ��ްУ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЈ��ް����ްН��ް����ް����ް����ް����ް����ް����ް����ް����ްЯ��ްЉ��ް����ް����ްЙ��ްУ��ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް���ްз��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ްУ��ްе��ް����ް����ް����ް����ް����ްР��ްС��ް����ް����ް����ް���ް����ް����ްЈ��ްМ��ް����ް���ް����ްп��ް����ް����ް����ް����ް����ް����ް����ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЪ��ް���ް����ް����ް����ް����ް����ް����ް����ް����ްЯ��ްк��ް�ـ�ް��ްв��ް����ް����ްл��ް�Ё�ް�Ё�ް�ށ�ް����ް��ް����ް�ۂ�ް�߂�ް����ް����ް����ް�˄�ް�Ԅ�ް�݄�ް����ް�م�ް�څ�ް���ްЁ��ްЂ��ް����ްА��ް���ް���ްо��ް����ް��ް�Ɉ�ް�Ո�ް�ֈ�ް����ް����ް����ް����ްc����ް����ްcК��ް�ǘ�ްb����ް�ʙ�ްc����ް���ްb�ǭ�ް���ްx���ް���ްx����ް��ްc�Π�ްЎ��ްb����ްЏ��ްa����ްА��ްcВ��ްБ��ްbЏ��ްВ��ްaЎ��ްЖ��ްc����ްИ��ްb����ްК��ްb����ް����ްa�Ѩ�ް����ްcନ�ް����ްc����ް����ްcИ��ް����ްb����ް����ްa����ް����ްc�נ�ް����ްa���ް����ްb�à�ް����ްa�ݠ�ް����ްa� �ް����ްb����ް����ްa����ް����ްb����ް� �ްc����ް�à�ްb����ް�Ƞ�ްc����ް�Π�ްb�֠�ް�Ҡ�ްb����ް�Ӡ�ްb���ް�֠�ްa�ߠ�ް�נ�ްa���ް�٠�ްb����ް�ڠ�ްb����ް�ܠ�ްb�Ƞ�ް�ݠ�ްa�Ӡ�ް�ߠ�ްb�٠�ް���ްa����ް���ްc��ް���ްa����ް����ްb����ް���ްc���ް���ްc�ֈ�ް����ްc����ް����ްb�ڠ�ް����ްb����ް����ްa���ް૦�ްa�Ҡ�ް୦�ްb����ް����ްx௦�ް௦�ްx��ް�Ħ�ްx�Ħ�ް�Ħ�ްx���ް���ްx����ް����ްx���ް����ްc����ް����ްa���ް௧�ްb����ް����ްb�Ψ�ް����ްc�֧�ް����ްc�ѧ�ް����ްc����ްྦྷ�ްc�§�ް�§�ްc����ް�Ƨ�ްb২�ް�ǧ�ްa����ް�ȧ�ްc�̧�ް�̧�ްb�ާ�ް�ͧ�ްc�ϧ�ް�ϧ�ްb�Ũ�ް�ѧ�ްa�ߧ�ް�ҧ�ްb����ް�ԧ�ްa���ް�է�ްb�ۨ�ް�֧�ްb����ް�ڧ�ްc����ް�ۧ�ްa�ԧ�ް�ܧ�ްb���ް�ާ�ްc���ް�ߧ�ްb����ް���ްc����ް���ްa����ް���ްc����ް���ްc����ް���ްc����ް����ްa�¨�ް���ްb�ڧ�ް����ްa���ް����ްb�Ƨ�ް����ްc����ް����ްb����ް����ްb�ҧ�ް����ްa����ް����ްa����ް����ްc����ް����ްb����ް����ްa�ͨ�ް����ްb����ް����ްc����ް����ްa����ް����ްb�ǧ�ް����ްb�ۧ�ް����ްc�ר�ް২�ްa�ݨ�ް����ްcྦྷ�ް����ްb����ްନ�ްa����ް����ްc���ް����ްb�ȧ�ް����ްb����ް����ްa����ް����ްa����ް����ްc௧�ް����ްb�֨�ް�¨�ްa����ް�Ũ�ްa����ް�̨�ްc�է�ް�ͨ�ްa�ͧ�ް�Ψ�ްa����ް�Ѩ�ްb����ް�֨�ްa����ް�ר�ްb����ް�ۨ�ްb����ް�ݨ�ްb�̨�ް���ްx���ް���ްx����ްФ��ްc�Ԅ�ް�ɬ�ްx�ɬ�ް�ɬ�ްx����ް����ްc����ް����ްx����ް����ްx����ް�ǭ�ްbА��ް���ްx���ް���ްx����ްе��ްx����ް����ްx����ް���ްx���ް���ްx����ް���ްc����ް���ްb����ް����ްc���ް����ްx����ް����ްx�Զ�ް����ްx����ް����ްxЇ��ް����ްa����ް�в�ްa�˴�ް�ײ�ްb���ް���ްa����ް����ްb�ܧ�ް����ްx��ް��ްx����ް�˴�ްc��ް�Ѵ�ްx�Ҵ�ް�Ҵ�ްx����ް���ްc����ް���ްa�ٺ�ް�Զ�ްx�Զ�ް�Զ�ްxЉ��ް���ްx���ް���ްx����ް����ްa�ӽ�ް����ްb���ް�ӹ�ްb����ް�ٹ�ްa����ްЇ��ްx����ް����ްx����ްи��ްx����ް����ްx����ް�غ�ްa����ް�ٺ�ްb����ް���ްc����ް����ްc�в�ް��ްb�Ȼ�ް�Ȼ�ްaН��ް�ӽ�ްbЋ��ް����ްx����ް����ްx���ް��ްx����ް����ްx����ް�ƾ�ްb����ް���ްc����ް�ʿ�ްc���ް�ؿ�ްx�ؿ�ް�ؿ�ްx����ް���ްc����ްЋ��ްcн��ްВ��ްx����ް����ްx����ް����ްx���ް���ްx����ް����ްc����ްн��ްa���ް����ްa�ʿ�ް����ްx����ް����ްx����ް����ްb����ް����ްb����ްЮ��ްa���ް����ްbЮ��ް����ްx����ް����ްx���ް���ްx����ް����ްx����ް����ްa����ް����ްbС��ް���ްb����ް����ްx���ް���ްx����ް����ްxЩ��ްЩ��ްx�ؿ�ް����ްb����ްЏ��ްa����ްб��ްx����ް����ްx����ް����ްaЏ��ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ްЍ��ްb���ްУ��ްx����ް����ްxе��ް����ްa����ް����ްx����ް����ްx���ް����ްx����ް����ްxи��ް����ްx����ް����ްx���ް����ްb����ް����ްa����ްЈ��ްx����ް����ްx����ްН��ްa��ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx�Ħ�ް����ްb���ް����ްxЯ��ްЯ��ްx����ްЉ��ްx����ް����ްx����ް����ްxЙ��ްЙ��ްx�Ѵ�ްУ��ްb����ް����ްc�ʙ�ް����ްa����ް���ްb����ް����ްc���ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx���ް����ްb����ް���ްa�ށ�ްз��ްx����ް����ްx����ް����ްc����ް����ްx����ް����ްx���ް����ްx����ް����ްx����ް����ްa�ƾ�ް����ްb����ް����ްc����ް���ްx����ް����ްx����ް����ްc����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްxУ��ް����ްa����ް����ްb�ײ�ް����ްbБ��ް����ްb����ް����ްx����ް����ްx����ް����ްa����ް����ްb����ް����ްx����ް����ްx����ް����ްb����ް����ްa�ٹ�ް����ްa����ް����ްx����ް����ްx����ް����ްc���ް����ްa���ް����ްa����ް���ްx����ް����ްy����ް����ްb����ް����ްx����ް����ްx����ް����ްc����ް����ްc����ް����ްc����ް����ްa����ް����ްcЁ��ް����ްx����ް����ްx����ް����ްbУ��ް����ްb����ް����ްb����ް����ްb����ް����ްb����ް����ްx����ް����ްx�ɬ�ް����ްb૦�ް���ްc����ް����ްb���ް����ްb��ް����ްb����ް����ްc����ް����ްa����ް����ްb����ް����ްa���ް����ްa����ް����ްb����ް����ްc����ް����ްb����ް����ްa����ް����ްa����ް����ްx����ް����ްx����ް����ްb����ް����ްx����ް����ްx����ް���ްc����ް����ްc����ް����ްc����ް����ްx����ް����ްxб��ް����ްaЖ��ް����ްaФ��ް����ްcо��ް����ްx����ް����ްxВ��ް����ްx����ް����ްx����ް����ްb����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްxз��ް����ްb����ް����ްa����ް����ްb����ް����ްx����ް����ްx����ް����ްa����ް����ްa୦�ް����ްx����ް����ްxЈ��ް����ްb����ް����ްx����ް����ްx����ް����ްcЍ��ް����ްa����ް����ްb���ް����ްc����ް����ްc�ǘ�ް���ްa����ް����ްa����ް����ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްa���ް����ްa����ް����ްb����ް����ްa����ް����ްx����ް����ްx����ް����ްa����ް����ްc�غ�ް����ްa����ް����ްx����ް����ްx����ް����ްb����ް����ްb����ް����ްx����ް����ްx�Ё�ް����ްa����ް����ްx����ް����ްx���ް���ްb����ް����ްb���ް����ްxУ��ްУ��ްx���ްе��ްc�Ո�ް����ްc��ް����ްa����ް����ްxв��ް����ްc����ް����ްa����ް����ްc����ްР��ްa���ްС��ްc����ް����ްbЂ��ް����ްx����ް����ްx���ް���ްx����ް����ްx����ް����ްxЈ��ްЈ��ްxМ��ްМ��ްx����ް����ްx����ް���ްcе��ް����ްxп��ްп��ްx����ް����ްb�ۂ�ް����ްx����ް����ްx����ް����ްc�ӹ�ް����ްc����ް����ްx����ް����ްx����ް���ްx����ް����ްx����ް����ްx����ް����ްx����ް����ްc����ް����ްa����ް����ްa����ް����ްx����ް����ްx����ް����ްxЪ��ްЪ��ްx����ް���ްx����ް����ްx����ް����ްb����ް����ްc����ް����ްb����ް����ްc����ް����ްa����ް����ްa����ް����ްxЯ��ްЯ��ްx����ްк��ްa����ް�ـ�ްc���ް��ްbк��ްв��ްx����ް����ްx���ް����ްxл��ްл��ްx�߂�ް�Ё�ްx�Ё�ް�Ё�ްx����ް�ށ�ްc�Ɉ�ް����ްa�ـ�ް��ްc�݄�ް����ްa����ް�ۂ�ްa����ް�߂�ްx����ް����ްx�م�ް����ްc�ܠ�ް����ްc����ް�˄�ްbР��ް�Ԅ�ްa����ް�݄�ްb����ް����ްc����ް�م�ްx�څ�ް�څ�ްx����ް���ްa����ްЁ��ްc����ްЂ��ްc����ް����ްxА��ްА��ްx����ް���ްx���ް���ްx���ްо��ްc����ް����ްc�˄�ް��ްc����ް�Ɉ�ްc����ް�Ո�ްc����ް�ֈ�ްc����ް����ްb����ް ����ް(