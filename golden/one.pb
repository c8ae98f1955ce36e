
����ް����ް����ް����ްa����ް ����ް(