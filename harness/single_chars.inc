'S',1,0,'S',1,1,'S',1,2,'S',1,3,'S',1,4,'S',1,5,'S',1,6,'S',1,7,'S',1,8,'S',1,9,'S',1,10,'S',1,11,'S',1,12,'S',1,13,'S',1,14,'S',1,15,
'S',1,16,'S',1,17,'S',1,18,'S',1,19,'S',1,20,'S',1,21,'S',1,22,'S',1,23,'S',1,24,'S',1,25,'S',1,26,'S',1,27,'S',1,28,'S',1,29,'S',1,30,'S',1,31,
'S',1,32,'S',1,33,'S',1,34,'S',1,35,'S',1,36,'S',1,37,'S',1,38,'S',1,39,'S',1,40,'S',1,41,'S',1,42,'S',1,43,'S',1,44,'S',1,45,'S',1,46,'S',1,47,
'S',1,48,'S',1,49,'S',1,50,'S',1,51,'S',1,52,'S',1,53,'S',1,54,'S',1,55,'S',1,56,'S',1,57,'S',1,58,'S',1,59,'S',1,60,'S',1,61,'S',1,62,'S',1,63,
'S',1,64,'S',1,65,'S',1,66,'S',1,67,'S',1,68,'S',1,69,'S',1,70,'S',1,71,'S',1,72,'S',1,73,'S',1,74,'S',1,75,'S',1,76,'S',1,77,'S',1,78,'S',1,79,
'S',1,80,'S',1,81,'S',1,82,'S',1,83,'S',1,84,'S',1,85,'S',1,86,'S',1,87,'S',1,88,'S',1,89,'S',1,90,'S',1,91,'S',1,92,'S',1,93,'S',1,94,'S',1,95,
'S',1,96,'S',1,97,'S',1,98,'S',1,99,'S',1,100,'S',1,101,'S',1,102,'S',1,103,'S',1,104,'S',1,105,'S',1,106,'S',1,107,'S',1,108,'S',1,109,'S',1,110,'S',1,111,
'S',1,112,'S',1,113,'S',1,114,'S',1,115,'S',1,116,'S',1,117,'S',1,118,'S',1,119,'S',1,120,'S',1,121,'S',1,122,'S',1,123,'S',1,124,'S',1,125,'S',1,126,'S',1,127,
'S',1,128,'S',1,129,'S',1,130,'S',1,131,'S',1,132,'S',1,133,'S',1,134,'S',1,135,'S',1,136,'S',1,137,'S',1,138,'S',1,139,'S',1,140,'S',1,141,'S',1,142,'S',1,143,
'S',1,144,'S',1,145,'S',1,146,'S',1,147,'S',1,148,'S',1,149,'S',1,150,'S',1,151,'S',1,152,'S',1,153,'S',1,154,'S',1,155,'S',1,156,'S',1,157,'S',1,158,'S',1,159,
'S',1,160,'S',1,161,'S',1,162,'S',1,163,'S',1,164,'S',1,165,'S',1,166,'S',1,167,'S',1,168,'S',1,169,'S',1,170,'S',1,171,'S',1,172,'S',1,173,'S',1,174,'S',1,175,
'S',1,176,'S',1,177,'S',1,178,'S',1,179,'S',1,180,'S',1,181,'S',1,182,'S',1,183,'S',1,184,'S',1,185,'S',1,186,'S',1,187,'S',1,188,'S',1,189,'S',1,190,'S',1,191,
'S',1,192,'S',1,193,'S',1,194,'S',1,195,'S',1,196,'S',1,197,'S',1,198,'S',1,199,'S',1,200,'S',1,201,'S',1,202,'S',1,203,'S',1,204,'S',1,205,'S',1,206,'S',1,207,
'S',1,208,'S',1,209,'S',1,210,'S',1,211,'S',1,212,'S',1,213,'S',1,214,'S',1,215,'S',1,216,'S',1,217,'S',1,218,'S',1,219,'S',1,220,'S',1,221,'S',1,222,'S',1,223,
'S',1,224,'S',1,225,'S',1,226,'S',1,227,'S',1,228,'S',1,229,'S',1,230,'S',1,231,'S',1,232,'S',1,233,'S',1,234,'S',1,235,'S',1,236,'S',1,237,'S',1,238,'S',1,239,
'S',1,240,'S',1,241,'S',1,242,'S',1,243,'S',1,244,'S',1,245,'S',1,246,'S',1,247,'S',1,248,'S',1,249,'S',1,250,'S',1,251,'S',1,252,'S',1,253,'S',1,254,'S',1,255,
'S',0
