
����ް ����ް