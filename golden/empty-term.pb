
����ް����ް ����ް(