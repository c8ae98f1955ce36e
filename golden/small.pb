
��ް����ް�ߕ�ް����ް��ް����ް�ߕ�ް����ް��ްc����ް�ߕ�ްb��ް����ްa�ߕ�ް����ްb��ް ����ް(