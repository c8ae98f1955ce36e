
��ĕ�ް�ĕ�ް�ϕ�ް�ݕ�ް���ް���ް����ް����ް�˖�ް�Ֆ�ް����ް���ްИ��ް����ްЙ��ް����ްК��ް����ްЛ��ް����ްМ��ް����ްН��ް����ްТ��ް����ްУ��ް����ްФ��ް����ްХ��ް����ްЦ��ް����ްЧ��ް����ްШ��ް����ްЩ��ް����ް����ް��ްЬ��ް����ް����ް��ްг��ް����ް����ް��ްж��ް����ް����ް��ްй��ް����ް����ް��ްм��ް����ް����ް�ƚ�ް�ǚ�ް�Ț�ް�ɚ�ް�͚�ް�Κ�ް�Ϛ�ް�К�ް�К�ް�њ�ް�Қ�ް�Ӛ�ް�Ӛ�ް�Ԛ�ް�՚�ް�֚�ް�֚�ް�ך�ް�ؚ�ް�ٚ�ް�ٚ�ް�ښ�ް�ۚ�ް�ܚ�ް�ܚ�ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ްЂ��ް����ް����ް����ްЅ��ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް࢛�ް����ް����ް����ްज़�ް����ް����ް����ްਛ�ް����ް����ް����ް௛�ް����ް����ް����ްಛ�ް����ް����ް����ް൛�ް����ް����ް����ްป�ް����ް����ް����ް໛�ް����ް����ް��ް��ް�Û�ް�ě�ް�ś�ް�ś�ް�ƛ�ް�Ǜ�ް�ț�ް�ț�ް�ɛ�ް�ʛ�ް�˛�ް�˛�ް�̛�ް�͛�ް�Λ�ް�Λ�ް�ϛ�ް�Л�ް�ћ�ް�՛�ް�֛�ް�כ�ް�؛�ް�؛�ް�ٛ�ް�ڛ�ް�ۛ�ް�ۛ�ް�ܛ�ް�ݛ�ް�ޛ�ް�ޛ�ް�ߛ�ް����ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް���ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް�ĕ�ް���ް����ް����ް�ĕ�ް���ް�ĕ�ް�ϕ�ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�������ް�ĕ�ް�ĕ�ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް	���ް�ĕ�ް
���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް���ް�ĕ�ް ���ް�ĕ�ް!���ް�ĕ�ް"���ް�ĕ�ް#���ް�ĕ�ް$���ް�ĕ�ް%���ް�ĕ�ް&���ް�ĕ�ް'���ް�ĕ�ް(���ް�ĕ�ް)���ް�ĕ�ް*���ް�ĕ�ް+���ް�ĕ�ް,���ް�ĕ�ް-���ް�ĕ�ް.���ް�ĕ�ް/���ް�ĕ�ް0���ް�ĕ�ް1���ް�ĕ�ް2���ް�ĕ�ް3���ް�ĕ�ް4���ް�ĕ�ް5���ް�ĕ�ް6���ް�ĕ�ް7���ް�ĕ�ް8���ް�ĕ�ް9���ް�ĕ�ް:���ް�ĕ�ް;���ް�ĕ�ް<���ް�ĕ�ް=���ް�ĕ�ް>���ް�ĕ�ް?���ް�ĕ�ް@���ް�ĕ�ްA���ް�ĕ�ްB���ް�ĕ�ްC���ް�ĕ�ްD���ް�ĕ�ްE���ް�ĕ�ްF���ް�ĕ�ްG���ް�ĕ�ްH���ް�ĕ�ްI���ް�ĕ�ްJ���ް�ĕ�ްK���ް�ĕ�ްL���ް�ĕ�ްM���ް�ĕ�ްN���ް�ĕ�ްO���ް�ĕ�ްP���ް�ĕ�ްQ���ް�ĕ�ްR���ް�ĕ�ްS���ް�ĕ�ްT���ް�ĕ�ްU���ް�ĕ�ްV���ް�ĕ�ްW���ް�ĕ�ްX���ް�ĕ�ްY���ް�ĕ�ްZ���ް�ĕ�ް[���ް�ĕ�ް\���ް�ĕ�ް]���ް�ĕ�ް^���ް�ĕ�ް_���ް�ĕ�ް`���ް�ĕ�ްa����ް�ĕ�ްb���ް�ĕ�ްc���ް�ĕ�ްd���ް�ĕ�ްe���ް�ĕ�ްf���ް�ĕ�ްg���ް�ĕ�ްh���ް�ĕ�ްi���ް�ĕ�ްj���ް�ĕ�ްk���ް�ĕ�ްl���ް�ĕ�ްm���ް�ĕ�ްn���ް�ĕ�ްo���ް�ĕ�ްp����ް�ĕ�ްq���ް�ĕ�ްr���ް�ĕ�ްs���ް�ĕ�ްt���ް�ĕ�ްu���ް�ĕ�ްv���ް�ĕ�ްw���ް�ĕ�ްx���ް�ĕ�ްy���ް�ĕ�ްz���ް�ĕ�ް{���ް�ĕ�ް|���ް�ĕ�ް}���ް�ĕ�ް~���ް�ĕ�ް���ް�ϕ�ް����ް�ݕ�ް
И��ް���ް���ް����ް����ް����ް	�ݕ�ް�˖�ް�Ֆ�ް�Ֆ�ް���ް����ް�˖�ް���ް����ްИ��ް����ް����ްЙ��ްЙ��ް����ް����ްК��ްК��ް����ް����ްЛ��ްЛ��ް����ް����ްМ��ްМ��ް����ް����ްН��ްН��ް����ް����ްТ��ްТ��ް����ް����ްУ��ްУ��ް����ް����ްФ��ްФ��ް����ް����ްХ��ްХ��ް����ް����ްЦ��ްЦ��ް����ް����ް Ч��ްЧ��ް!����ް����ް"Ш��ްШ��ް#����ް����ް$Щ��ްЩ��ް%����ް����ް&����ް����ް'��ް��ް(Ь��ްЬ��ް)����ް����ް*����ް����ް+��ް��ް,г��ްг��ް-����ް����ް.����ް����ް/��ް��ް0ж��ްж��ް1����ް����ް2����ް����ް3��ް��ް4й��ްй��ް5����ް����ް6����ް����ް7��ް��ް8м��ްм��ް9����ް����ް:����ް����ް;�ƚ�ް�ƚ�ް<�ǚ�ް�ǚ�ް=�Ț�ް�Ț�ް>�ɚ�ް�ɚ�ް?�͚�ް�͚�ް@�Κ�ް�Κ�ްA�Ϛ�ް�Ϛ�ްB�К�ް�К�ްC�К�ް�К�ްD�њ�ް�њ�ްE�Қ�ް�Қ�ްF�Ӛ�ް�Ӛ�ްG�Ӛ�ް�Ӛ�ްH�Ԛ�ް�Ԛ�ްI�՚�ް�՚�ްJ�֚�ް�֚�ްK�֚�ް�֚�ްL�ך�ް�ך�ްM�ؚ�ް�ؚ�ްN�ٚ�ް�ٚ�ްO�ٚ�ް�ٚ�ްP�ښ�ް�ښ�ްQ�ۚ�ް�ۚ�ްR�ܚ�ް�ܚ�ްS�ܚ�ް�ܚ�ްT���ް���ްU���ް���ްV���ް���ްW���ް���ްX���ް���ްY���ް���ްZ���ް���ް[���ް���ް\���ް���ް]���ް���ް^���ް���ް_���ް���ް`���ް���ްa���ް���ްb���ް���ްc���ް���ްd���ް���ްe���ް���ްf���ް���ްg���ް���ްh���ް���ްi����ް����ްj����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްo����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްv����ް����ްw����ް����ްx����ް����ްyЂ��ްЂ��ްz����ް����ް{����ް����ް|����ް����ް}Ѕ��ްЅ��ް~����ް����ް����ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް����࢛�ް࢛�ް��������ް����ް��������ް����ް��������ް����ް����ज़�ްज़�ް��������ް����ް��������ް����ް��������ް����ް����ਛ�ްਛ�ް��������ް����ް��������ް����ް��������ް����ް����௛�ް௛�ް��������ް����ް��������ް����ް��������ް����ް����ಛ�ްಛ�ް��������ް����ް��������ް����ް��������ް����ް����൛�ް൛�ް��������ް����ް��������ް����ް��������ް����ް����ป�ްป�ް��������ް����ް��������ް����ް��������ް����ް����໛�ް໛�ް��������ް����ް��������ް����ް������ް��ް������ް��ް�����Û�ް�Û�ް�����ě�ް�ě�ް�����ś�ް�ś�ް�����ś�ް�ś�ް�����ƛ�ް�ƛ�ް�����Ǜ�ް�Ǜ�ް�����ț�ް�ț�ް�����ț�ް�ț�ް�����ɛ�ް�ɛ�ް�����ʛ�ް�ʛ�ް�����˛�ް�˛�ް�����˛�ް�˛�ް�����̛�ް�̛�ް�����͛�ް�͛�ް�����Λ�ް�Λ�ް�����Λ�ް�Λ�ް�����ϛ�ް�ϛ�ް�����Л�ް�Л�ް�����ћ�ް�ћ�ް�����՛�ް�՛�ް�����֛�ް�֛�ް�����כ�ް�כ�ް�����؛�ް�؛�ް�����؛�ް�؛�ް�����ٛ�ް�ٛ�ް�����ڛ�ް�ڛ�ް�����ۛ�ް�ۛ�ް�����ۛ�ް�ۛ�ް�����ܛ�ް�ܛ�ް�����ݛ�ް�ݛ�ް�����ޛ�ް�ޛ�ް�����ޛ�ް�ޛ�ް�����ߛ�ް�ߛ�ް��������ް����ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް�������ް���ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް�������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް��������ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް	����ް����ް
����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް����ް ����ް����ް!����ް����ް"����ް����ް#����ް����ް$����ް����ް%����ް����ް&����ް����ް'����ް����ް(����ް����ް)����ް����ް*����ް����ް+����ް����ް,����ް����ް-����ް����ް.����ް����ް/����ް����ް0����ް����ް1����ް����ް2����ް����ް3����ް����ް4����ް����ް5����ް����ް6����ް����ް7����ް����ް8����ް����ް9����ް����ް:����ް����ް;����ް����ް<����ް����ް=����ް����ް>����ް����ް?����ް����ް@����ް����ްA����ް����ްB����ް����ްC����ް����ްD����ް����ްE����ް����ްF����ް����ްG����ް����ްH����ް����ްI����ް����ްJ����ް����ްK����ް����ްL����ް����ްM����ް����ްN����ް����ްO����ް����ްP����ް����ްQ����ް����ްR����ް����ްS����ް����ްT����ް����ްU����ް����ްV����ް����ްW����ް����ްX����ް����ްY����ް����ްZ����ް����ް[����ް����ް\����ް����ް]����ް����ް^����ް����ް_����ް����ް`����ް����ްa����ް����ްb����ް����ްc����ް����ްd����ް����ްe����ް����ްf����ް����ްg����ް����ްh����ް����ްi����ް����ްj����ް����ްk����ް����ްl����ް����ްm����ް����ްn����ް����ްo����ް����ްp����ް����ްq����ް����ްr����ް����ްs����ް����ްt����ް����ްu����ް����ްv����ް����ްw����ް����ްx����ް����ްy����ް����ްz����ް����ް{����ް����ް|����ް����ް}����ް����ް~����ް����ް����ް����ްq���ް����ް����ް����ްb���ް �ĕ�ް(�