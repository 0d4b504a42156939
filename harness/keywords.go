package harness

// keywordList holds the keywords of the lexer; generated plain names avoid them.
const keywordList = `ABORT ACTION ADD AFTER ALL ALTER ANALYZE AND AS ASC ATTACH AUTOINCREMENT BINARY BEFORE BEGIN BETWEEN BY CASCADE CASE 
CAST CHECK COLLATE COLUMN COMMIT CONFLICT CONSTRAINT COPY CREATE CROSS CSV CURRENT_DATE CURRENT_TIME CURRENT_TIMESTAMP 
DATABASE DEFAULT DEFERRABLE DEFERRED DELETE DESC DETACH DISTINCT DROP EACH ELSE END ESCAPE EXCEPT EXCLUSIVE EXISTS 
EXPLAIN FAIL FOR FOREIGN FORMAT FROM FULL GLOB GROUP HAVING IF IGNORE IMMEDIATE IN INDEX INDEXED INITIALLY INNER INSERT 
INSTEAD INTERSECT INTO IS ISNULL JOIN KEY LEFT LIKE LIMIT MATCH NATURAL NO NOT NOTNULL NULL OF OFFSET ON OR ORDER OUTER 
PLAN PRAGMA PRIMARY QUERY RAISE RECURSIVE REFERENCES REGEXP REINDEX RELEASE RENAME REPLACE RESTRICT RETURNING RIGHT 
ROLLBACK ROW ROWS SAVEPOINT SELECT SET TABLE TEMP TEMPORARY TEXT THEN TO TRANSACTION TRIGGER TRUNCATE UNION UNIQUE 
UPDATE USING VACUUM VALUES VIEW VIRTUAL WHEN WHERE WITH WITHOUT FIRST_VALUE OVER PARTITION RANGE PRECEDING UNBOUNDED 
CURRENT FOLLOWING CUME_DIST DENSE_RANK LAG LAST_VALUE LEAD NTH_VALUE NTILE PERCENT_RANK RANK ROW_NUMBER GENERATED 
ALWAYS STORED TRUE FALSE WINDOW NULLS FIRST LAST FILTER GROUPS EXCLUDE TIES OTHERS DO NOTHING USE ENGINE `
